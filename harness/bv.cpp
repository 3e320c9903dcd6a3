#include <cassert>
#include <vector>
#include "succinct/bit_vector.hpp"
using namespace succinct;
typedef bit_vector_builder BB;
extern "C" {
bool h_bv_at(bit_vector const* b, uint64_t p){ return (*b)[p]; }
uint64_t h_bv_size(bit_vector const* b){ return b->size(); }
uint64_t h_bv_get_bits(bit_vector const* b, uint64_t p, uint64_t l){ return b->get_bits(p,l); }
uint64_t h_bv_get_word(bit_vector const* b, uint64_t p){ return b->get_word(p); }
uint64_t h_bv_get_word56(bit_vector const* b, uint64_t p){ return b->get_word56(p); }
uint64_t h_bv_pred0(bit_vector const* b, uint64_t p){ return b->predecessor0(p); }
uint64_t h_bv_succ0(bit_vector const* b, uint64_t p){ return b->successor0(p); }
uint64_t h_bv_pred1(bit_vector const* b, uint64_t p){ return b->predecessor1(p); }
uint64_t h_bv_succ1(bit_vector const* b, uint64_t p){ return b->successor1(p); }
void h_bv_swap(bit_vector* a, bit_vector* b){ a->swap(*b); }
void h_bv_from_builder(bit_vector* out, BB* b){ new (out) bit_vector(b); }
void h_bv_from_range(bit_vector* out, std::vector<uint8_t> const* r){ new (out) bit_vector(*r); }
void h_bv_default(bit_vector* out){ new (out) bit_vector(); }

void h_bb_ctor(BB* out, uint64_t n, bool init){ new (out) BB(n, init); }
void h_bb_reserve(BB* b, uint64_t n){ b->reserve(n); }
void h_bb_push_back(BB* b, bool x){ b->push_back(x); }
void h_bb_set(BB* b, uint64_t p, bool x){ b->set(p,x); }
void h_bb_set_bits(BB* b, uint64_t p, uint64_t bits, uint64_t len){ b->set_bits(p,bits,len); }
void h_bb_append_bits(BB* b, uint64_t bits, uint64_t len){ b->append_bits(bits,len); }
void h_bb_zero_extend(BB* b, uint64_t n){ b->zero_extend(n); }
void h_bb_one_extend(BB* b, uint64_t n){ b->one_extend(n); }
void h_bb_append(BB* b, BB const* r){ b->append(*r); }
void h_bb_reverse(BB* b){ b->reverse(); }
void h_bb_swap(BB* a, BB* b){ a->swap(*b); }
uint64_t h_bb_size(BB const* b){ return b->size(); }

typedef bit_vector::enumerator EN;
void h_en_ctor(EN* out, bit_vector const* b, uint64_t p){ new (out) EN(*b, p); }
bool h_en_next(EN* e){ return e->next(); }
uint64_t h_en_take(EN* e, uint64_t l){ return e->take(l); }
uint64_t h_en_skip_zeros(EN* e){ return e->skip_zeros(); }
uint64_t h_en_position(EN const* e){ return e->position(); }
typedef bit_vector::unary_enumerator UE;
void h_ue_ctor(UE* out, bit_vector const* b, uint64_t p){ new (out) UE(*b, p); }
uint64_t h_ue_next(UE* e){ return e->next(); }
void h_ue_skip(UE* e, uint64_t k){ e->skip(k); }
uint64_t h_ue_skip_no_move(UE* e, uint64_t k){ return e->skip_no_move(k); }
void h_ue_skip0(UE* e, uint64_t k){ e->skip0(k); }
uint64_t h_ue_position(UE const* e){ return e->position(); }
}
