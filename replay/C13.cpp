#include "bvlib.hpp"
#include "succinct/topk_vector.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/mapper.hpp"
template <class V> static void run(Rng& r, std::vector<uint64_t> const& v, const char* d) {
    topk_vector<V> t0(v), t; t0.swap(t);
    EQ((uint64_t)t.size(), (uint64_t)v.size(), "size"); uint64_t n = v.size();
    for (uint64_t i = 0; i < n; i += 1 + n / 500) EQ((uint64_t)t[i], v[i], "[%llu]", (ull)i);
    if (!n) return;
    typename topk_vector<V>::enumerator reused;
    for (int k = 0; k < 20; ++k) {
        uint64_t a = r.below(n), z = std::min(n - 1, a + (r.coin(1, 3) ? 0 : r.coin(1, 2) ? r.below(40) : r.below(n))); uint64_t len = z - a + 1;
        uint64_t K = r.coin(1, 5) ? 0 : r.coin(1, 3) ? len : r.coin(1, 2) ? len + r.below(5) : r.below(len + 1); if (len > 3000 && K > 300) K = 300;
        a_case("%s range [%llu,%llu] k=%llu", d, (ull)a, (ull)z, (ull)K);
        std::vector<std::pair<uint64_t, uint64_t>> w; for (uint64_t i = a; i <= z; ++i) w.push_back({v[i], i});
        std::sort(w.begin(), w.end(), [](auto const& x, auto const& y) { return x.first > y.first || (x.first == y.first && x.second < y.second); });
        auto got = t.topk(a, z, K);
        EQ((uint64_t)got.size(), std::min(K, len), "topk length");
        for (uint64_t i = 0; i < got.size(); ++i) { EQ((uint64_t)boost::get<0>(got[i]), w[i].first, "topk value %llu", (ull)i); EQ((uint64_t)boost::get<1>(got[i]), w[i].second, "topk index %llu", (ull)i); }
        typename topk_vector<V>::enumerator e = t.get_topk_enumerator(a, z); typename topk_vector<V>::enumerator* p = &e;
        if (r.coin(1, 2)) { t.get_topk_enumerator(a, z, reused); p = &reused; }
        uint64_t lim = len > 2000 ? 500 : len;
        for (uint64_t i = 0; i < lim; ++i) { if (!p->next()) fail("enumerator ended after %llu of %llu", (ull)i, (ull)len); EQ((uint64_t)boost::get<0>(p->value()), w[i].first, "enumerator value %llu", (ull)i); EQ((uint64_t)boost::get<1>(p->value()), w[i].second, "enumerator index %llu", (ull)i); }
        if (lim == len) { EQ(p->next(), false, "enumerator past the end"); EQ(p->next(), false, "enumerator past the end, again"); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); uint64_t it = 0;
    do {
        uint64_t s = r.s, n = r.coin(1, 4) ? r.below(8) : r.coin(1, 2) ? r.below(100) : r.below(++it % 8 == 0 ? 20000 : 1500); int st = int(r.below(7)); std::vector<uint64_t> v; uint64_t k = 1 + r.below(4);
        for (uint64_t i = 0; i < n; ++i) v.push_back(st == 0 ? i : st == 1 ? n - i : st == 2 ? 3 : st == 3 ? r.below(k) : st == 4 ? r() >> 1 : st == 5 ? i % 17 : (r.coin(1, 20) ? r.below(1000000) : 0));
        char d[96]; snprintf(d, 96, "topk(rng=%llu n=%llu style=%d)", (ull)s, (ull)n, st);
        if (r.coin(1, 2)) run<elias_fano_compressed_list>(r, v, d); else run<mapper::mappable_vector<uint64_t>>(r, v, d);
    } while (more());
    return done();
}
