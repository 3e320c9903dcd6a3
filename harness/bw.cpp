#include <cassert>
#include "succinct/broadword.hpp"
#include "succinct/util.hpp"
using namespace succinct;
extern "C" {
uint64_t h_popcount(uint64_t x){ return broadword::popcount(x);}
uint64_t h_select_in_word(uint64_t x,uint64_t k){ return broadword::select_in_word(x,k);}
uint64_t h_byte_counts(uint64_t x){ return broadword::byte_counts(x);}
uint64_t h_bytes_sum(uint64_t x){ return broadword::bytes_sum(x);}
uint64_t h_reverse_bytes(uint64_t x){ return broadword::reverse_bytes(x);}
uint64_t h_reverse_bits(uint64_t x){ return broadword::reverse_bits(x);}
uint64_t h_same_msb(uint64_t x,uint64_t y){ return broadword::same_msb(x,y);}
bool h_msb2(uint64_t x, unsigned long* ret){ return broadword::msb(x,*ret);}
uint8_t h_msb(uint64_t x){ return broadword::msb(x);}
bool h_lsb2(uint64_t x, unsigned long* ret){ return broadword::lsb(x,*ret);}
uint8_t h_lsb(uint64_t x){ return broadword::lsb(x);}
uint64_t h_leq_step_8(uint64_t x,uint64_t y){ return broadword::leq_step_8(x,y);}
uint64_t h_uleq_step_8(uint64_t x,uint64_t y){ return broadword::uleq_step_8(x,y);}
uint64_t h_zcompare_step_8(uint64_t x){ return broadword::zcompare_step_8(x);}
uint64_t h_uleq_step_9(uint64_t x,uint64_t y){ return broadword::uleq_step_9(x,y);}
uint8_t h_bit_position(uint64_t x){ return broadword::bit_position(x);}
}
