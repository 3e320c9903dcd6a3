#include "bvlib.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
static std::vector<uint64_t> ints(Rng& r, std::string& d, bool small_sum) {
    uint64_t s = r.s; uint64_t n = r.coin(1, 6) ? r.below(4) : r.coin(1, 10) ? r.below(20000) : r.below(400); int st = int(r.below(7));
    std::vector<uint64_t> v; uint64_t sh = r.below(64);
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t x = 0;
        switch (st) { case 0: x = 0; break; case 1: x = r.below(2); break; case 2: x = r.below(100); break; case 3: x = r.coin(1, 30) ? r() >> sh : 0; break;
            case 4: x = (1ULL << r.below(64)) - (r.coin(1, 2) ? 1 : 2) + (r.coin(1, 2) ? 1 : 0); break; case 5: x = r() >> r.below(64); break; case 6: x = r.coin(1, 100) ? 1000000 : r.below(3); break; }
        if (x == uint64_t(-1)) x = uint64_t(-2);
        v.push_back(x);
    }
    if (small_sum) { unsigned __int128 t = 0; for (auto x : v) t += x; uint64_t lim = uint64_t(-2); while (t > lim) { t = 0; for (auto& x : v) { x >>= 8; t += x; } if (r.coin(1, 8) && v.size() && t < lim) { v[r.below(v.size())] += uint64_t(lim - t) ; t = lim; } } }
    char b[96]; snprintf(b, 96, "ints(rng=%llu n=%llu style=%d)", (ull)s, (ull)n, st); d = b; return v;
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    do {
        std::string d;
        { auto v = ints(r, d, true); a_case("elias_fano_list %s", d.c_str());
          elias_fano_list l0(v), l; l0.swap(l); uint64_t s = 0; for (auto x : v) s += x;
          EQ((uint64_t)l.size(), (uint64_t)v.size(), "size"); EQ((uint64_t)l.sum(), s, "sum");
          for (uint64_t k = 0; k < v.size(); ++k) EQ((uint64_t)l[k], v[k], "[%llu]", (ull)k); }
        { auto v = ints(r, d, false); a_case("elias_fano_compressed_list %s", d.c_str());
          elias_fano_compressed_list l0(v), l; l0.swap(l);
          EQ((uint64_t)l.size(), (uint64_t)v.size(), "size");
          for (uint64_t k = 0; k < v.size(); ++k) EQ((uint64_t)l[k], v[k], "[%llu]", (ull)k); }
    } while (more());
    return done();
}
