#include <cassert>
#include <vector>
#include <new>
#include "succinct/bit_vector.hpp"
#include "succinct/darray64.hpp"
using namespace succinct;
extern "C" {
void h_d64_append1(darray64::builder* b, uint64_t skip){ b->append1(skip); }
void h_d64_bctor(darray64::builder* b){ new (b) darray64::builder(); }
void h_d64_build(darray64* d, darray64::builder* b){ new (d) darray64(b); }
uint64_t h_d64_select(darray64 const* d, uint64_t i){ return d->select(i); }
uint64_t h_d64_num(darray64 const* d){ return d->num_ones(); }
bit_vector const* h_d64_bits(darray64 const* d){ return &d->bits(); }
}
