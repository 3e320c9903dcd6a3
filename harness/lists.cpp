#include <cassert>
#include <vector>
#include <new>
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
using namespace succinct;
typedef elias_fano_list FL;
typedef elias_fano_compressed_list CL;
typedef std::vector<uint64_t> Range;
extern "C" {
uint64_t h_fl_at(FL const* l, uint64_t i){ return (*l)[i]; }
uint64_t h_fl_size(FL const* l){ return l->size(); }
uint64_t h_fl_sum(FL const* l){ return l->sum(); }
void h_fl_ctor(FL* out, Range const* r){ new (out) FL(*r); }
uint64_t h_cl_at(CL const* l, uint64_t i){ return (*l)[i]; }
uint64_t h_cl_size(CL const* l){ return l->size(); }
void h_cl_ctor(CL* out, Range const* r){ new (out) CL(*r); }
}
