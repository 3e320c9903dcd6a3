#include "bvlib.hpp"
#include "succinct/forward_enumerator.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
static std::vector<uint64_t> ints(Rng& r, std::string& d, uint64_t maxv) {
    uint64_t s = r.s; uint64_t n = r.coin(1, 6) ? r.below(4) : r.coin(1, 10) ? r.below(9000) : r.below(400); int st = int(r.below(7));
    std::vector<uint64_t> v; uint64_t sh = r.below(64);
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t x = 0;
        switch (st) { case 0: x = 0; break; case 1: x = r.below(3); break; case 2: x = r.below(100); break; case 3: x = r.coin(1, 30) ? r() >> sh : 0; break;
            case 4: x = (1ULL << r.below(64)) - r.below(4); break; case 5: x = r() >> r.below(64); break; case 6: x = maxv - r.below(3); break; }
        v.push_back(std::min(x, maxv));
    }
    char b[96]; snprintf(b, 96, "ints(rng=%llu n=%llu style=%d)", (ull)s, (ull)n, st); d = b; return v;
}
template <class V, class F> static void run(Rng& r, std::vector<uint64_t> const& v, const char* nm, std::string const& d, F skip) {
    a_case("%s %s", nm, d.c_str());
    V l0(v), l; l0.swap(l);
    EQ((uint64_t)l.size(), (uint64_t)v.size(), "size");
    for (uint64_t k = 0; k < v.size(); ++k) EQ((uint64_t)l[k], v[k], "[%llu]", (ull)k);
    for (int t = 0; t < 5; ++t) {
        uint64_t i = t == 0 ? 0 : t == 1 && v.size() ? v.size() - 1 : r.below(v.size() + 1);
        a_case("%s %s enumerator@%llu", nm, d.c_str(), (ull)i);
        forward_enumerator<V> e(l, i); uint64_t k = i, lim = std::min<uint64_t>(v.size(), i + (t < 3 ? v.size() : 300));
        while (k < lim) { if (r.coin(1, 8)) { uint64_t s = r.below(std::min<uint64_t>(lim - k, r.coin(1, 4) ? 2000 : 20) + 1); skip(e, s); k += s; } else { EQ((uint64_t)e.next(), v[k], "enumerator@%llu element %llu", (ull)i, (ull)k); ++k; } }
    }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    do {
        std::string d;
        auto v = ints(r, d, uint64_t(-2)); run<gamma_vector>(r, v, "gamma_vector", d, [](forward_enumerator<gamma_vector>& e, uint64_t k) { while (k--) e.next(); });
        v = ints(r, d, uint64_t(-3)); run<gamma_bit_vector>(r, v, "gamma_bit_vector", d, [](forward_enumerator<gamma_bit_vector>& e, uint64_t k) { e.skip(k); });
    } while (more());
    return done();
}
