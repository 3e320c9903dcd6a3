#include "bvlib.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
static void one(std::vector<uint64_t> const& pos, uint64_t n, Rng& r, const char* desc) {
    // pos: sorted positions of ones in a vector of n bits
    bit_vector_builder bb(n); for (uint64_t p : pos) bb.set(p, 1);
    bit_vector v(&bb);
    a_case("darray1 %s n=%llu ones=%llu", desc, (ull)n, (ull)pos.size());
    darray1 d0(v), d; d0.swap(d);
    EQ(d.num_positions(), (uint64_t)pos.size(), "num_positions");
    for (uint64_t k = 0; k < pos.size(); ++k) EQ(d.select(v, k), pos[k], "select(%llu)", (ull)k);
    std::vector<uint64_t> z; { size_t j = 0; for (uint64_t i = 0; i < n; ++i) { if (j < pos.size() && pos[j] == i) ++j; else z.push_back(i); } }
    a_case("darray0 %s n=%llu zeros=%llu", desc, (ull)n, (ull)z.size());
    darray0 e(v);
    EQ(e.num_positions(), (uint64_t)z.size(), "num_positions (zeros)");
    uint64_t st = 1 + z.size() / 20000;
    for (uint64_t k = 0; k < z.size(); k += st == 1 ? 1 : 1 + r.below(2 * st)) EQ(e.select(v, k), z[k], "select0(%llu)", (ull)k);
    if (z.size()) EQ(e.select(v, z.size() - 1), z.back(), "select0(last)");
}
static void inverted(std::vector<uint64_t> const& zeros, uint64_t n, Rng& r, const char* desc) {
    bit_vector_builder bb(n, 1); for (uint64_t p : zeros) bb.set(p, 0);
    bit_vector v(&bb);
    a_case("darray0(inverted) %s n=%llu zeros=%llu", desc, (ull)n, (ull)zeros.size());
    darray0 d(v);
    EQ(d.num_positions(), (uint64_t)zeros.size(), "num_positions");
    for (uint64_t k = 0; k < zeros.size(); ++k) EQ(d.select(v, k), zeros[k], "select(%llu)", (ull)k);
}
// blocks of 1024 positions whose span is chosen around 2^16
static std::vector<uint64_t> spans(Rng& r, uint64_t& n) {
    std::vector<uint64_t> p; uint64_t at = r.below(200); uint64_t blocks = 1 + r.below(5);
    for (uint64_t b = 0; b < blocks; ++b) {
        uint64_t cnt = (b + 1 == blocks && r.coin(2, 3)) ? 1 + r.below(1024) : 1024;
        static const uint64_t sp[] = {65535, 65536, 65537, 65534, 1023, 2000, 30000, 70000, 131072, 40000};
        uint64_t span = sp[r.below(10)]; if (span < cnt) span = cnt;
        std::set<uint64_t> s; s.insert(0); if (cnt > 1) s.insert(span);
        int sh = int(r.below(3));
        while (s.size() < cnt) s.insert(sh == 0 ? r.below(span + 1) : sh == 1 ? s.size() % (span + 1) : span - (s.size() % (span + 1)) );
        if (sh == 1 && cnt > 2) { s.clear(); for (uint64_t i = 0; i + 1 < cnt; ++i) s.insert(i); s.insert(span); }
        if (sh == 2 && cnt > 2) { s.clear(); s.insert(0); for (uint64_t i = 0; i + 1 < cnt; ++i) s.insert(span - i); }
        for (uint64_t x : s) p.push_back(at + x);
        at += span + 1 + (r.coin(1, 2) ? 0 : r.below(300));
    }
    n = p.back() + 1 + (r.coin(1, 2) ? 0 : r.below(130));
    return p;
}
static void d64(Rng& r) {
    uint64_t s0 = r.s; uint64_t m = r.coin(1, 3) ? r.below(200) : r.below(5000); int style = int(r.below(4));
    a_case("darray64 rng=%llu appends=%llu style=%d", (ull)s0, (ull)m, style);
    darray64::builder b; bits_t bits; std::vector<uint64_t> pos;
    for (uint64_t k = 0; k < m; ++k) {
        uint64_t g = style == 0 ? 63 : style == 1 ? 0 : style == 2 ? r.below(64) : (r.coin(1, 50) ? 63 : r.below(3));
        b.append1(g); for (uint64_t j = 0; j < g; ++j) bits.push_back(0); pos.push_back(bits.size()); bits.push_back(1);
    }
    darray64 d0(&b), d; d0.swap(d);
    EQ((uint64_t)d.num_ones(), m, "num_ones"); EQ((uint64_t)d.bits().size(), (uint64_t)bits.size(), "bits size");
    for (uint64_t i = 0; i < bits.size(); ++i) EQ((bool)d.bits()[i], (bool)bits[i], "bit %llu", (ull)i);
    for (uint64_t k = 0; k < m; ++k) EQ((uint64_t)d.select(k), pos[k], "select(%llu)", (ull)k);
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    do {
        { bits_t b = gen_bits(r, r.coin(1, 12) ? 300000 : 5000); std::vector<uint64_t> p; for (size_t i = 0; i < b.size(); ++i) if (b[i]) p.push_back(i); one(p, b.size(), r, DESC); }
        { uint64_t s = r.s, n; std::vector<uint64_t> p = spans(r, n); char d[64]; snprintf(d, 64, "spans(rng=%llu)", (ull)s); if (r.coin(1, 2)) one(p, n, r, d); else inverted(p, n, r, d); }
        d64(r);
    } while (more());
    return done();
}
