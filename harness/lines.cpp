#include <cassert>
#include <cstdio>
#include <vector>
#include <string>
#include "succinct/util.hpp"
using namespace succinct::util;
typedef buffer_line_iterator BI;
typedef line_iterator LI;
extern "C" {
void h_trim(std::string* s){ trim_newline_chars(*s); }
bool h_getline(std::string* s, FILE* f, bool trim){ return fast_getline(*s, f, trim); }
void h_li_end(LI* o){ new (o) LI(); }
void h_li_ctor(LI* o, FILE* f, bool trim){ new (o) LI(f, trim); }
void h_li_next(LI* o){ ++*o; }
bool h_li_eq(LI const* a, LI const* b){ return *a == *b; }
std::string const* h_li_get(LI const* a){ return &**a; }
void h_bi_end(BI* o){ new (o) BI(); }
void h_bi_ctor(BI* o, const char* b, size_t n){ new (o) BI(b, n); }
void h_bi_next(BI* o){ ++*o; }
bool h_bi_eq(BI const* a, BI const* b){ return *a == *b; }
std::string const* h_bi_get(BI const* a){ return &**a; }
void h_ml_begin(BI* o, mmap_lines const* m){ new (o) BI(m->begin()); }
void h_ml_end(BI* o, mmap_lines const* m){ new (o) BI(m->end()); }
}
