#include "bvlib.hpp"
#include "succinct/elias_fano.hpp"
static void queries(elias_fano const& ef, std::vector<uint64_t> const& a, uint64_t n, bool rank_index, Rng& r) {
    EQ((uint64_t)ef.size(), n, "size"); EQ((uint64_t)ef.num_ones(), (uint64_t)a.size(), "num_ones");
    uint64_t m = a.size();
    for (uint64_t k = 0; k < m; ++k) {
        EQ(ef.select(k), a[k], "select(%llu)", (ull)k);
        EQ(ef.delta(k), a[k] - (k ? a[k - 1] : 0), "delta(%llu)", (ull)k);
        if (k + 1 < m) { auto p = ef.select_range(k); EQ((uint64_t)p.first, a[k], "select_range(%llu).first", (ull)k); EQ((uint64_t)p.second, a[k + 1], "select_range(%llu).second", (ull)k); }
    }
    for (int t = 0; t < 6 && m; ++t) {
        uint64_t i = t == 0 ? 0 : t == 1 ? m - 1 : r.below(m);
        elias_fano::select_enumerator e(ef, i);
        uint64_t lim = std::min<uint64_t>(m - i, t < 2 ? m : 300);
        for (uint64_t k = 0; k < lim; ++k) EQ((uint64_t)e.next(), a[i + k], "enumerator@%llu step %llu", (ull)i, (ull)k);
    }
    if (!rank_index) return;
    std::vector<uint64_t> qs; qs.push_back(0); qs.push_back(n); if (n) qs.push_back(n - 1);
    for (uint64_t k = 0; k < m; k += 1 + m / 400) { qs.push_back(a[k]); qs.push_back(a[k] + 1); if (a[k]) qs.push_back(a[k] - 1); }
    for (int t = 0; t < 200; ++t) qs.push_back(n ? r.below(n + 1) : 0);
    for (uint64_t q : qs) {
        if (q > n) continue;
        uint64_t lo = std::lower_bound(a.begin(), a.end(), q) - a.begin();
        if (q == n) { EQ(ef.rank(n), m, "rank(size)"); continue; } // rank of the universe bound is the element count
        EQ(ef.rank(q), lo, "rank(%llu)", (ull)q);
        EQ((bool)ef[q], (bool)(lo < m && a[lo] == q), "operator[](%llu)", (ull)q);
        if (lo < m) EQ(ef.successor1(q), a[lo], "successor1(%llu)", (ull)q);
        uint64_t up = std::upper_bound(a.begin(), a.end(), q) - a.begin();
        if (up && q + 1 <= n && (q + 1 < n || a.back() < n)) EQ(ef.predecessor1(q), a[up - 1], "predecessor1(%llu)", (ull)q);
    }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    uint64_t it = 0;
    do {
        uint64_t s = r.s;
        uint64_t m = r.coin(1, 4) ? r.below(4) : r.coin(1, 8) ? r.below(6000) : r.below(300);
        int st = int(r.below(8)); uint64_t n;
        static const uint64_t ratio[] = {1, 2, 3, 4, 7, 8, 9, 64, 1000, 65536, 1ULL << 32, (1ULL << 32) + 5, 0};
        uint64_t rt = ratio[r.below(13)];
        n = m * rt + (r.coin(1, 2) ? r.below(3) : 0);
        if (m == 0) n = r.below(500);
        if (st == 7 && m && m < 10) n = r.coin(1, 2) ? uint64_t(-1) - r.below(3) : 1ULL << (50 + r.below(13));
        std::vector<uint64_t> a;
        for (uint64_t k = 0; k < m; ++k) a.push_back(st == 0 ? n : st == 1 ? 0 : st == 2 ? (n == uint64_t(-1) ? r() : r.below(n + 1)) : st == 3 ? (n ? n - r.below(std::min<uint64_t>(n, 5)) : 0) : (n == uint64_t(-1) ? r() : r.below(n + 1)));
        if (st == 4 && m) { for (uint64_t k = m / 2; k < m; ++k) a[k] = a[m / 2]; }   // long runs of equal values
        if (st == 5 && m) { for (uint64_t k = 0; k < m; ++k) a[k] = std::min(n, k); }
        if (st == 6 && m) { a[m - 1] = n; if (m > 1) a[0] = 0; }
        std::sort(a.begin(), a.end());
        bool ri = r.coin(3, 4);
        // the rank index is a zero-inventory of the high bits
        a_case("ef builder rng=%llu n=%llu m=%llu style=%d rank_index=%d", (ull)s, (ull)n, (ull)m, st, ri);
        uint64_t extra = r.coin(1, 5) ? r.below(5) : 0;  // builder declared with room for more elements than pushed
        elias_fano::elias_fano_builder b(n, m + extra);
        for (uint64_t x : a) b.push_back(x);
        elias_fano e0(&b, ri), e; e0.swap(e);
        queries(e, a, n, ri, r);
        if (++it % 2 == 0) {
            bits_t bits = gen_bits(r, 3000); std::vector<uint64_t> p; for (size_t i = 0; i < bits.size(); ++i) if (bits[i]) p.push_back(i);
            a_case("ef of bits %s rank_index=%d", DESC, ri);
            bit_vector_builder bb; fill(bb, bits); elias_fano f(&bb, ri); queries(f, p, bits.size(), ri, r);
        }
    } while (more());
    return done();
}
