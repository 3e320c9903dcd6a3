#include <cassert>
#include <vector>
#include <new>
#include "succinct/bit_vector.hpp"
#include "succinct/darray.hpp"
using namespace succinct;
extern "C" {
uint64_t h_da1_select(darray1 const* d, bit_vector const* b, uint64_t i){ return d->select(*b, i); }
uint64_t h_da0_select(darray0 const* d, bit_vector const* b, uint64_t i){ return d->select(*b, i); }
uint64_t h_da1_num(darray1 const* d){ return d->num_positions(); }
uint64_t h_da0_num(darray0 const* d){ return d->num_positions(); }
void h_da1_build(darray1* d, bit_vector const* b){ new (d) darray1(*b); }
void h_da0_build(darray0* d, bit_vector const* b){ new (d) darray0(*b); }
void h_da1_flush(std::vector<uint64_t>* c, std::vector<int64_t>* b, std::vector<uint16_t>* s, std::vector<uint64_t>* o){ darray1::flush_cur_block(*c, *b, *s, *o); }
void h_da0_flush(std::vector<uint64_t>* c, std::vector<int64_t>* b, std::vector<uint16_t>* s, std::vector<uint64_t>* o){ darray0::flush_cur_block(*c, *b, *s, *o); }
}
