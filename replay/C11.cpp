#include "bplib.hpp"
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); uint64_t it = 0;
    do {
        bool big = ++it % 8 == 0;
        uint64_t ex = r.coin(1, 2) ? 0 : r.coin(1, 2) ? r.below(70) : r.below(3000);
        bits_t b = gen_bp(r, r.coin(1, 20) ? 0 : gen_half(r, big), ex); uint64_t n = b.size(); if (!n) continue;
        std::vector<int64_t> e(n + 1); for (uint64_t i = 0; i < n; ++i) e[i + 1] = e[i] + (b[i] ? 1 : -1);
        a_case("%s", g_pdesc.c_str());
        bit_vector_builder bb; fill(bb, b); bp_vector v0(&bb, r.coin(1, 2), r.coin(1, 2)), v; v0.swap(v);
        for (uint64_t i = 0; i <= n; i += 1 + (n > 20000 ? r.below(n / 2000) : 0)) EQ((int64_t)v.excess(i), e[i], "excess(%llu)", (ull)i);
        uint64_t tries = n <= 60 ? 0 : big ? 400 : 300;
        auto q = [&](uint64_t a, uint64_t z, uint64_t want) {
            bp_vector::excess_t m = 12345; uint64_t g = v.excess_rmq(a, z, m);
            EQ(g, want, "excess_rmq(%llu,%llu)", (ull)a, (ull)z); EQ((int64_t)m, e[want], "excess_rmq(%llu,%llu) minimum", (ull)a, (ull)z);
            EQ(v.excess_rmq(a, z), want, "excess_rmq/2(%llu,%llu)", (ull)a, (ull)z);
        };
        if (n <= 400) { for (uint64_t a = 0; a <= n; ++a) { uint64_t w = a; for (uint64_t z = a; z <= n; ++z) { if (e[z] < e[w]) w = z; q(a, z, w); } } continue; }
        for (uint64_t t = 0; t < tries; ++t) {
            uint64_t a = r.below(n + 1), len = r.coin(1, 3) ? r.below(200) : r.coin(1, 2) ? r.below(9000) : r.below(n + 1), z = std::min(n, a + len);
            if (r.coin(1, 3)) { static const uint64_t al[] = {64, 256, 8192}; uint64_t g = al[r.below(3)]; a = a / g * g; if (r.coin(1, 2)) z = std::max(a, std::min(n, z / g * g + r.below(2))); }
            uint64_t w = a; for (uint64_t i = a; i <= z; ++i) if (e[i] < e[w]) w = i;
            q(a, z, w);
        }
    } while (more());
    return done();
}
