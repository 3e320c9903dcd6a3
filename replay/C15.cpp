#include "bvlib.hpp"
#include "succinct/vbyte.hpp"
#include "succinct/util.hpp"
#include "succinct/nibble_vector.hpp"
static uint64_t val(Rng& r) { switch (r.below(4)) { case 0: return r(); case 1: return r() >> r.below(64); case 2: return (1ULL << r.below(64)) - r.below(3); default: { uint64_t x = uint64_t(-1) >> r.below(64); return x + r.below(3) - 1; } } }
static size_t naive_size(uint64_t x) { size_t n = 1; while (x >>= 7) ++n; return n; }
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    for (uint64_t k = 0; k < 64; ++k) for (int64_t d = -2; d <= 2; ++d) {
        uint64_t x = (1ULL << k) + uint64_t(d); a_case("fold %llu", (ull)x);
        EQ(util::int2nat(util::nat2int(x)), x, "int2nat(nat2int(%llu))", (ull)x); EQ(util::nat2int(util::int2nat(int64_t(x))), int64_t(x), "nat2int(int2nat(%lld))", (long long)x);
        std::vector<uint8_t> v; EQ((uint64_t)append_vbyte(v, x), (uint64_t)v.size(), "vbyte length of %llu", (ull)x); EQ((uint64_t)vbyte_size(x), (uint64_t)naive_size(x), "vbyte_size(%llu)", (ull)x); size_t y = 77; EQ((uint64_t)decode_vbyte(v, 0, y), (uint64_t)v.size(), "decode length of %llu", (ull)x); EQ((uint64_t)y, x, "decode");
    }
    do {
        { std::vector<uint8_t> v; std::vector<uint64_t> xs, off; uint64_t junk = r.below(20); while (junk--) v.push_back(uint8_t(r())); uint64_t n = 1 + r.below(30);
          for (uint64_t k = 0; k < n; ++k) { uint64_t x = val(r); a_case("vbyte %llu at %llu", (ull)x, (ull)v.size()); off.push_back(v.size()); xs.push_back(x); size_t b = v.size(); size_t c = append_vbyte(v, x); EQ((uint64_t)c, (uint64_t)(v.size() - b), "bytes appended"); EQ((uint64_t)c, (uint64_t)vbyte_size(x), "announced size"); EQ((uint64_t)c, (uint64_t)naive_size(x), "minimal size"); }
          for (uint64_t k = 0; k < n; ++k) { size_t y = r(); uint64_t l = decode_vbyte(v, off[k], y); EQ((uint64_t)y, xs[k], "decoded value"); EQ(l, (k + 1 < n ? off[k + 1] : (uint64_t)v.size()) - off[k], "decoded length"); }
          mapper::mappable_vector<uint8_t> mv(v); size_t y; uint64_t l = decode_vbyte(mv, off[0], y); EQ((uint64_t)y, xs[0], "decoded from mappable_vector"); (void)l; }
        { uint64_t x = val(r); a_case("fold %llu", (ull)x); EQ(util::int2nat(util::nat2int(x)), x, "int2nat(nat2int(%llu))", (ull)x); EQ(util::nat2int(util::int2nat(int64_t(x))), int64_t(x), "nat2int(int2nat(%lld))", (long long)x); EQ((int)(util::int2nat(int64_t(x)) & 1), (int)(int64_t(x) < 0), "sign in the low bit"); }
        { uint64_t s = r.s, n = r.below(300); a_case("nibbles rng=%llu n=%llu", (ull)s, (ull)n); std::vector<uint8_t> a; for (uint64_t k = 0; k < n; ++k) a.push_back(uint8_t(r.below(16))); nibble_vector v0(a), v; v0.swap(v); EQ((uint64_t)v.size(), n, "nibble size"); for (uint64_t k = 0; k < n; ++k) EQ((int)v[k], (int)a[k], "nibble %llu", (ull)k); }
        { uint64_t d = 1 + (r.coin(1, 2) ? r.below(100) : r() >> (1 + r.below(63))), x = val(r); if (x <= uint64_t(-1) - d + 1) { a_case("ceil_div %llu/%llu", (ull)x, (ull)d); EQ(util::ceil_div(x, d), x / d + (x % d != 0), "ceil_div"); } uint32_t a = uint32_t(r()) >> 1, c = 1 + uint32_t(r.below(1 << 20)); a_case("ceil_div32 %u/%u", a, c); EQ(util::ceil_div(a, c), a / c + (a % c != 0), "ceil_div32"); }
    } while (more());
    return done();
}
