#include "bvlib.hpp"
#include "succinct/rs_bit_vector.hpp"
static void one(bits_t const& b, Rng& r, const char* desc) {
    std::vector<uint64_t> o, z, rk(b.size() + 1);
    for (size_t i = 0; i < b.size(); ++i) { rk[i + 1] = rk[i] + b[i]; (b[i] ? o : z).push_back(i); }
    for (int h = 0; h < 4; ++h) {
        a_case("rs %s hints=%d first bits %s", desc, h, bstr(b, 64).c_str());
        bit_vector_builder bb; fill(bb, b);
        rs_bit_vector v0(&bb, h & 1, h & 2), v; v0.swap(v);
        rs_bit_vector w(b, h & 1, h & 2); if (r.coin(1, 2)) v.swap(w);
        EQ((uint64_t)v.size(), (uint64_t)b.size(), "size");
        EQ(v.num_ones(), (uint64_t)o.size(), "num_ones"); EQ(v.num_zeros(), (uint64_t)z.size(), "num_zeros");
        bool all = b.size() <= 5000;
        uint64_t step = all ? 1 : 1 + b.size() / 4000;
        for (uint64_t p = 0; p <= b.size(); p += (all ? 1 : 1 + r.below(2 * step))) { EQ(v.rank(p), rk[p], "rank(%llu)", (ull)p); EQ(v.rank0(p), p - rk[p], "rank0(%llu)", (ull)p); }
        EQ(v.rank(b.size()), rk[b.size()], "rank(size)"); EQ(v.rank0(b.size()), b.size() - rk[b.size()], "rank0(size)");
        uint64_t so = all ? 1 : 1 + o.size() / 4000, sz = all ? 1 : 1 + z.size() / 4000;
        for (uint64_t k = 0; k < o.size(); k += all ? 1 : 1 + r.below(2 * so)) EQ(v.select(k), o[k], "select(%llu)", (ull)k);
        for (uint64_t k = 0; k < z.size(); k += all ? 1 : 1 + r.below(2 * sz)) EQ(v.select0(k), z[k], "select0(%llu)", (ull)k);
        for (uint64_t k = 0; k < o.size(); k += 1024) { EQ(v.select(k), o[k], "select(%llu)", (ull)k); if (k) EQ(v.select(k - 1), o[k - 1], "select(%llu)", (ull)(k - 1)); }
        for (uint64_t k = 0; k < z.size(); k += 1024) { EQ(v.select0(k), z[k], "select0(%llu)", (ull)k); if (k) EQ(v.select0(k - 1), z[k - 1], "select0(%llu)", (ull)(k - 1)); }
        if (o.size()) EQ(v.select(o.size() - 1), o.back(), "select(last)");
        if (z.size()) EQ(v.select0(z.size() - 1), z.back(), "select0(last)");
    }
}
// block counts engineered so that block ranks hit multiples of the hint spacing exactly
static bits_t engineered(Rng& r) {
    uint64_t blocks = 1 + r.below(40); bits_t b; bool inv = r.coin(1, 2);
    for (uint64_t k = 0; k < blocks; ++k) {
        static const uint64_t c[] = {512, 512, 256, 0, 511, 1, 513 - 1, 128, 448, 64};
        uint64_t ones = c[r.below(10)]; bits_t blk(512);
        if (r.coin(1, 2)) { for (uint64_t i = 0; i < ones; ++i) blk[i] = 1; }
        else if (r.coin(1, 2)) { for (uint64_t i = 0; i < ones; ++i) blk[511 - i] = 1; }
        else { uint64_t w = r.below(512); for (uint64_t i = 0; i < ones; ++i) blk[(w + i) % 512] = 1; }
        for (int i = 0; i < 512; ++i) b.push_back(blk[i] != inv);
    }
    uint64_t cut = r.coin(1, 2) ? 0 : r.below(600); while (cut-- && b.size()) b.pop_back();
    return b;
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    { bits_t e; one(e, r, "empty"); }
    uint64_t it = 0;
    do {
        { bits_t b = gen_bits(r, (++it % 16 == 0) ? 200000 : 6000); one(b, r, DESC); }
        { uint64_t s = r.s; bits_t b = engineered(r); char d[80]; snprintf(d, 80, "engineered(rng=%llu n=%llu)", (ull)s, (ull)b.size()); one(b, r, d); }
    } while (more());
    return done();
}
