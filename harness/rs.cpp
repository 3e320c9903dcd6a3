#include <cassert>
#include <vector>
#include "succinct/rs_bit_vector.hpp"
#include "succinct/rs_bit_vector.cpp"
using namespace succinct;
typedef rs_bit_vector RS;
extern "C" {
uint64_t h_rs_num_ones(RS const* r){ return r->num_ones(); }
uint64_t h_rs_num_zeros(RS const* r){ return r->num_zeros(); }
uint64_t h_rs_rank(RS const* r, uint64_t p){ return r->rank(p); }
uint64_t h_rs_rank0(RS const* r, uint64_t p){ return r->rank0(p); }
uint64_t h_rs_select(RS const* r, uint64_t n){ return r->select(n); }
uint64_t h_rs_select0(RS const* r, uint64_t n){ return r->select0(n); }
uint64_t h_rs_num_blocks(RS const* r){ return r->num_blocks(); }
uint64_t h_rs_sub_block_rank(RS const* r, uint64_t b){ return r->sub_block_rank(b); }
void h_rs_build(RS* r, bool h1, bool h0){ r->build_indices(h1, h0); }
void h_rs_swap(RS* a, RS* b){ a->swap(*b); }
}
