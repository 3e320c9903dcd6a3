#pragma once
#include "common.hpp"
#include "succinct/bit_vector.hpp"
using namespace succinct;
static void fill(bit_vector_builder& bb, bits_t const& b) { for (size_t i = 0; i < b.size(); ++i) bb.push_back(b[i]); }
#define DESC g_bdesc.c_str()
typedef unsigned long long ull;
