#include <cassert>
#include <vector>
#include "succinct/rs_bit_vector.cpp"
#include "succinct/bp_vector.hpp"
#include "succinct/bp_vector.cpp"
using namespace succinct;
typedef bp_vector BP;
typedef bp_vector::excess_t E;
extern "C" {
void h_bp_tables(void* p){ new (p) excess_tables(); }
bool h_bp_fcw(uint64_t w, uint64_t bc, E e, uint64_t* r){ return find_close_in_word(w, bc, e, *r); }
bool h_bp_fow(uint64_t w, uint64_t bc, E e, uint64_t* r){ return find_open_in_word(w, bc, e, *r); }
void h_bp_rmqw(uint64_t w, E* exc, uint64_t ws, E* me, uint64_t* mi){ excess_rmq_in_word(w, *exc, ws, *me, *mi); }
bool h_bp_fcb(BP const* b, uint64_t bo, E e, uint64_t st, uint64_t* r){ return b->find_close_in_block(bo, e, st, *r); }
bool h_bp_fob(BP const* b, uint64_t bo, E e, uint64_t st, uint64_t* r){ return b->find_open_in_block(bo, e, st, *r); }
E h_bp_gbe(BP const* b, uint64_t k){ return b->get_block_excess(k); }
E h_bp_excess(BP const* b, uint64_t p){ return b->excess(p); }
bool h_bp_sbs1(BP const* b, uint64_t k, E e, size_t* f){ return b->search_block_in_superblock<1>(k, e, *f); }
bool h_bp_sbs0(BP const* b, uint64_t k, E e, size_t* f){ return b->search_block_in_superblock<0>(k, e, *f); }
uint64_t h_bp_smt1(BP const* b, uint64_t k, E e){ return b->search_min_tree<1>(k, e); }
uint64_t h_bp_smt0(BP const* b, uint64_t k, E e){ return b->search_min_tree<0>(k, e); }
uint64_t h_bp_find_close(BP const* b, uint64_t p){ return b->find_close(p); }
uint64_t h_bp_find_open(BP const* b, uint64_t p){ return b->find_open(p); }
uint64_t h_bp_enclose(BP const* b, uint64_t p){ return b->enclose(p); }
void h_bp_rmqb(BP const* b, uint64_t s, uint64_t e, E* exc, E* me, uint64_t* mi){ b->excess_rmq_in_block(s, e, *exc, *me, *mi); }
void h_bp_rmqs(BP const* b, uint64_t s, uint64_t e, E* me, uint64_t* mi){ b->excess_rmq_in_superblock(s, e, *me, *mi); }
void h_bp_fms(BP const* b, uint64_t s, uint64_t e, E* me, uint64_t* mi){ b->find_min_superblock(s, e, *me, *mi); }
uint64_t h_bp_rmq(BP const* b, uint64_t x, uint64_t y, E* me){ return b->excess_rmq(x, y, *me); }
uint64_t h_bp_rmq2(BP const* b, uint64_t x, uint64_t y){ return b->excess_rmq(x, y); }
void h_bp_build(BP* b){ b->build_min_tree(); }
}
