#include <cassert>
#include <vector>
#include "succinct/mapper.hpp"
#include "succinct/rs_bit_vector.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
#include "succinct/elias_fano.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/forward_enumerator.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/bp_vector.hpp"
#include "succinct/cartesian_tree.hpp"
#include "succinct/topk_vector.hpp"
#include "succinct/nibble_vector.hpp"
using namespace succinct;
typedef topk_vector<elias_fano_compressed_list> topk;
extern "C" const char* vp_image(std::ofstream* f);   /* the bytes f received */
#define OBJ(N, T) extern "C" { \
void h_swap_##N(T* a, T* b){ a->swap(*b); } \
void h_rt_##N(T* a, T* b, std::ofstream* f, uint64_t flags, uint64_t mflags, size_t* out){ \
  out[0] = mapper::freeze(*a, *f, flags); out[1] = mapper::map(*b, vp_image(f), mflags); out[2] = mapper::size_of(*a); } }
OBJ(mv64, mapper::mappable_vector<uint64_t>) OBJ(mv16, mapper::mappable_vector<uint16_t>) OBJ(mv8, mapper::mappable_vector<uint8_t>)
OBJ(bv, bit_vector) OBJ(rs, rs_bit_vector) OBJ(da1, darray1) OBJ(da0, darray0) OBJ(da64, darray64) OBJ(ef, elias_fano)
OBJ(efl, elias_fano_list) OBJ(efc, elias_fano_compressed_list) OBJ(gv, gamma_vector) OBJ(gbv, gamma_bit_vector) OBJ(bp, bp_vector) OBJ(ct, cartesian_tree) OBJ(nib, nibble_vector) OBJ(topk, topk)
