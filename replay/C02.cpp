#include "bvlib.hpp"
static void check(bits_t const& b, bit_vector const& v, Rng& r) {
    uint64_t n = b.size();
    EQ((uint64_t)v.size(), n, "size");
    auto oracle = [&](uint64_t p, uint64_t l) { uint64_t x = 0; for (uint64_t i = 0; i < l; ++i) if (p + i < n && b[p + i]) x |= 1ULL << i; return x; };
    std::vector<int64_t> p1(n), p0(n), s1(n), s0(n);
    int64_t l1 = -1, l0 = -1;
    for (uint64_t i = 0; i < n; ++i) { if (b[i]) l1 = i; else l0 = i; p1[i] = l1; p0[i] = l0; }
    l1 = l0 = -1;
    for (uint64_t i = n; i-- > 0;) { if (b[i]) l1 = i; else l0 = i; s1[i] = l1; s0[i] = l0; }
    bool all = n < 700;
    uint64_t q = all ? n : 700;
    for (uint64_t t = 0; t < q; ++t) {
        uint64_t i = all ? t : (r.coin(1, 4) ? (r.below(n / 64 + 1) * 64 + r.below(3)) % n : r.below(n));
        EQ((bool)v[i], (bool)b[i], "operator[](%llu) on %s", (ull)i, DESC);
        EQ(v.get_word(i), oracle(i, 64), "get_word(%llu) on %s", (ull)i, DESC);
        if (i / 8 + 8 <= v.data().size() * 8) EQ(v.get_word56(i) & ((1ULL << 56) - 1), oracle(i, 56), "get_word56(%llu) on %s", (ull)i, DESC);
        if (p1[i] >= 0) EQ((int64_t)v.predecessor1(i), p1[i], "predecessor1(%llu) on %s", (ull)i, DESC);
        if (p0[i] >= 0) EQ((int64_t)v.predecessor0(i), p0[i], "predecessor0(%llu) on %s", (ull)i, DESC);
        if (s1[i] >= 0) EQ((int64_t)v.successor1(i), s1[i], "successor1(%llu) on %s", (ull)i, DESC);
        if (s0[i] >= 0) EQ((int64_t)v.successor0(i), s0[i], "successor0(%llu) on %s", (ull)i, DESC);
        for (int k = 0; k < 6; ++k) {
            uint64_t l = k == 0 ? 64 : k == 1 ? 0 : k == 2 ? 64 - i % 64 : k == 3 ? 63 : r.below(65);
            if (l > 64) l = 64;
            if (i + l <= n) EQ(v.get_bits(i, l), oracle(i, l), "get_bits(%llu,%llu) on %s", (ull)i, (ull)l, DESC);
        }
    }
    EQ(v.get_bits(n, 0), (uint64_t)0, "get_bits(size,0)");
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    do {
        bits_t b = gen_bits(r, r.coin(1, 6) ? 200000 : 1500);
        int how = r.below(2);
        a_case("%s built by %s", DESC, how ? "builder" : "range");
        if (how) { bit_vector_builder bb; fill(bb, b); bit_vector v(&bb); check(b, v, r); bit_vector w; w.swap(v); check(b, w, r); EQ((uint64_t)v.size(), (uint64_t)0, "swapped-out size"); }
        else { bit_vector v(b); check(b, v, r); }
    } while (more());
    return done();
}
