#include "common.hpp"
#include "succinct/broadword.hpp"
using namespace succinct;
static uint64_t np(uint64_t x) { uint64_t c = 0; for (; x; x &= x - 1) ++c; return c; }
static void one(uint64_t x, uint64_t y) {
    a_case("x=%llu y=%llu", (unsigned long long)x, (unsigned long long)y);
    EQ(broadword::popcount(x), np(x), "popcount(%llu)", (unsigned long long)x);
    uint64_t bc = broadword::byte_counts(x);
    for (int i = 0; i < 8; ++i) EQ((bc >> 8 * i) & 255, np((x >> 8 * i) & 255), "byte_counts byte %d of %llu", i, (unsigned long long)x);
    uint64_t rb = 0, rbits = 0;
    for (int i = 0; i < 8; ++i) rb |= ((x >> 8 * i) & 255) << (56 - 8 * i);
    for (int i = 0; i < 64; ++i) rbits |= ((x >> i) & 1) << (63 - i);
    EQ(broadword::reverse_bytes(x), rb, "reverse_bytes(%llu)", (unsigned long long)x);
    EQ(broadword::reverse_bits(x), rbits, "reverse_bits(%llu)", (unsigned long long)x);
    uint64_t k = 0;
    for (int i = 0; i < 64; ++i) if (x >> i & 1) { EQ(broadword::select_in_word(x, k), (uint64_t)i, "select_in_word(%llu,%llu)", (unsigned long long)x, (unsigned long long)k); ++k; }
    unsigned long r = 77; 
    EQ((int)broadword::msb(x, r), (int)(x != 0), "msb(x) return, x=%llu", (unsigned long long)x);
    if (x) { int m = 63; while (!(x >> m & 1)) --m; EQ((int)r, m, "msb(%llu)", (unsigned long long)x); EQ((int)broadword::msb(x), m, "msb(%llu)", (unsigned long long)x); } else EQ(r, 77ul, "msb(0) wrote");
    r = 77;
    EQ((int)broadword::lsb(x, r), (int)(x != 0), "lsb(x) return, x=%llu", (unsigned long long)x);
    if (x) { int m = 0; while (!(x >> m & 1)) ++m; EQ((int)r, m, "lsb(%llu)", (unsigned long long)x); EQ((int)broadword::lsb(x), m, "lsb(%llu)", (unsigned long long)x); EQ((int)broadword::bit_position(x & -x), m, "bit_position"); } else EQ(r, 77ul, "lsb(0) wrote");
    auto top = [](uint64_t v) { int m = -1; while (v) { v >>= 1; ++m; } return m; };
    EQ((int)broadword::same_msb(x, y), (int)(top(x) == top(y)), "same_msb(%llu,%llu)", (unsigned long long)x, (unsigned long long)y);
    uint64_t x7 = x & 0x7f7f7f7f7f7f7f7fULL, y7 = y & 0x7f7f7f7f7f7f7f7fULL;
    uint64_t a = broadword::leq_step_8(x7, y7), b = broadword::uleq_step_8(x, y), z = broadword::zcompare_step_8(x), n9 = broadword::uleq_step_9(x, y);
    for (int i = 0; i < 8; ++i) {
        EQ((a >> 8 * i) & 255, (uint64_t)(((x7 >> 8 * i) & 255) <= ((y7 >> 8 * i) & 255)), "leq_step_8 byte %d x=%llu y=%llu", i, (unsigned long long)x7, (unsigned long long)y7);
        EQ((b >> 8 * i) & 255, (uint64_t)(((x >> 8 * i) & 255) <= ((y >> 8 * i) & 255)), "uleq_step_8 byte %d x=%llu y=%llu", i, (unsigned long long)x, (unsigned long long)y);
        EQ((z >> 8 * i) & 255, (uint64_t)(((x >> 8 * i) & 255) != 0), "zcompare_step_8 byte %d x=%llu", i, (unsigned long long)x);
    }
    for (int i = 0; i < 7; ++i) EQ((n9 >> 9 * i) & 511, (uint64_t)(((x >> 9 * i) & 511) <= ((y >> 9 * i) & 511)), "uleq_step_9 field %d x=%llu y=%llu", i, (unsigned long long)x, (unsigned long long)y);
    uint64_t s = 0; bool ok = true; for (int i = 0; i < 8; ++i) s += (x >> 8 * i) & 255;
    if (ok && s < 256) EQ(broadword::bytes_sum(x), s, "bytes_sum(%llu)", (unsigned long long)x);
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    one(0, 0); one(~0ULL, ~0ULL); one(0, ~0ULL); one(~0ULL, 0);
    for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) one((1ULL << i) | (1ULL << j), (1ULL << i) - 1);
    for (int i = 0; i < 64; ++i) for (int j = i; j < 64; ++j) one((~0ULL >> (63 - (j - i))) << i, ~((~0ULL >> (63 - (j - i))) << i));
    for (uint64_t b = 0; b < 256; ++b) for (int j = 0; j < 8; ++j) { one(b << (8 * j), b << (8 * (7 - j))); one((b * 0x0101010101010101ULL) & ~(255ULL << (8 * j)), b * 0x0101010101010101ULL); }
    while (more()) for (int i = 0; i < 200; ++i) {
        uint64_t x = r(), y = r();
        switch (r.below(5)) { case 0: x &= r(); break; case 1: x |= r(); break; case 2: x &= r() & r() & r(); break; case 3: x >>= r.below(64); y = x ^ (1ULL << r.below(64)); break; default: break; }
        one(x, y);
    }
    return done();
}
