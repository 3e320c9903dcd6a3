#include <cassert>
#include <vector>
#include "succinct/bit_vector.hpp"
#include "succinct/util.hpp"
#include "succinct/vbyte.hpp"
#include "succinct/nibble_vector.hpp"
using namespace succinct;
typedef std::vector<uint8_t> V8;
extern "C" {
size_t h_vbyte_size(size_t v){ return vbyte_size(v); }
size_t h_append_vbyte(V8* v, size_t x){ return append_vbyte(*v, x); }
size_t h_decode_vbyte(V8 const* v, size_t off, size_t* val){ return decode_vbyte(*v, off, *val); }
size_t h_decode_vbyte_mv(mapper::mappable_vector<uint8_t> const* v, size_t off, size_t* val){ return decode_vbyte(*v, off, *val); }
uint64_t h_int2nat(int64_t x){ return util::int2nat(x); }
int64_t h_nat2int(uint64_t x){ return util::nat2int(x); }
uint64_t h_ceil_div(uint64_t a, uint64_t b){ return util::ceil_div(a, b); }
uint64_t h_ceil_div_int(uint64_t a, int b){ return util::ceil_div(a, b); }
void h_nib_ctor(nibble_vector* out, V8 const* v){ new (out) nibble_vector(*v); }
uint8_t h_nib_at(nibble_vector const* n, uint64_t p){ return (*n)[p]; }
size_t h_nib_size(nibble_vector const* n){ return n->size(); }
void h_nib_default(nibble_vector* out){ new (out) nibble_vector(); }
void h_nib_swap(nibble_vector* a, nibble_vector* b){ a->swap(*b); }
void h_mv_default(mapper::mappable_vector<uint64_t>* o){ new (o) mapper::mappable_vector<uint64_t>(); }
void h_mv_range(mapper::mappable_vector<uint64_t>* o, std::vector<uint64_t> const* v){ new (o) mapper::mappable_vector<uint64_t>(*v); }
void h_mv_steal(mapper::mappable_vector<uint64_t>* o, std::vector<uint64_t>* v){ o->steal(*v); }
void h_mv_assign(mapper::mappable_vector<uint64_t>* o, std::vector<uint64_t> const* v){ o->assign(*v); }
void h_mv_swap(mapper::mappable_vector<uint64_t>* o, mapper::mappable_vector<uint64_t>* v){ o->swap(*v); }
void h_mv_clear(mapper::mappable_vector<uint64_t>* o){ o->clear(); }
void h_mv_dtor(mapper::mappable_vector<uint64_t>* o){ o->~mappable_vector(); }
uint64_t h_mv_at(mapper::mappable_vector<uint64_t> const* o, uint64_t i){ return (*o)[i]; }
uint64_t h_mv_size(mapper::mappable_vector<uint64_t> const* o){ return o->size(); }
}
