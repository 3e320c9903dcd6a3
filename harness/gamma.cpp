#include <cassert>
#include <vector>
#include <new>
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
using namespace succinct;
typedef gamma_vector GV;
typedef gamma_bit_vector GB;
typedef forward_enumerator<gamma_vector> FV;
typedef forward_enumerator<gamma_bit_vector> FB;
typedef std::vector<uint64_t> Range;
extern "C" {
uint64_t h_gv_at(GV const* l, uint64_t i){ return (*l)[i]; }
uint64_t h_gv_size(GV const* l){ return l->size(); }
void h_gv_ctor(GV* out, Range const* r){ new (out) GV(*r); }
void h_fv_ctor(FV* out, GV const* g, uint64_t i){ new (out) FV(*g, i); }
uint64_t h_fv_next(FV* f){ return f->next(); }
uint64_t h_gb_at(GB const* l, uint64_t i){ return (*l)[i]; }
uint64_t h_gb_size(GB const* l){ return l->size(); }
void h_gb_ctor(GB* out, Range const* r){ new (out) GB(*r); }
void h_fb_ctor(FB* out, GB const* g, uint64_t i){ new (out) FB(*g, i); }
uint64_t h_fb_next(FB* f){ return f->next(); }
void h_fb_skip(FB* f, uint64_t k){ f->skip(k); }
}
