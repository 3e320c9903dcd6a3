#include <cassert>
#include <vector>
#include <new>
#include "succinct/elias_fano.hpp"
using namespace succinct;
typedef elias_fano EF;
typedef elias_fano::elias_fano_builder EB;
typedef elias_fano::select_enumerator SE;
struct efx : elias_fano { void b(EB& x, bool r){ build(x, r); } };
extern "C" {
uint64_t h_ef_size(EF const* e){ return e->size(); }
uint64_t h_ef_num_ones(EF const* e){ return e->num_ones(); }
uint64_t h_ef_select(EF const* e, uint64_t n){ return e->select(n); }
uint64_t h_ef_rank(EF const* e, uint64_t p){ return e->rank(p); }
bool h_ef_at(EF const* e, uint64_t p){ return (*e)[p]; }
uint64_t h_ef_pred(EF const* e, uint64_t p){ return e->predecessor1(p); }
uint64_t h_ef_succ(EF const* e, uint64_t p){ return e->successor1(p); }
uint64_t h_ef_delta(EF const* e, uint64_t n){ return e->delta(n); }
void h_ef_range(EF const* e, uint64_t n, uint64_t* a, uint64_t* b){ std::pair<uint64_t, uint64_t> r = e->select_range(n); *a = r.first; *b = r.second; }
void h_se_ctor(SE* s, EF const* e, uint64_t i){ new (s) SE(*e, i); }
uint64_t h_se_next(SE* s){ return s->next(); }
void h_eb_ctor(EB* b, uint64_t n, uint64_t m){ new (b) EB(n, m); }
void h_eb_push(EB* b, uint64_t v){ b->push_back(v); }
void h_ef_from_builder(EF* e, EB* b, bool rank){ new (e) EF(b, rank); }
void h_ef_from_bvb(EF* e, bit_vector_builder* b, bool rank){ new (e) EF(b, rank); }
}
