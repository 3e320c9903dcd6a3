#include "bvlib.hpp"
#include "succinct/cartesian_tree.hpp"
static std::vector<int> vals(Rng& r, std::string& d, uint64_t maxn) {
    uint64_t s = r.s, n = r.coin(1, 4) ? r.below(12) : r.coin(1, 3) ? r.below(200) : r.below(maxn); int st = int(r.below(9)); std::vector<int> v;
    uint64_t k = 1 + r.below(5), per = 1 + r.below(700);
    for (uint64_t i = 0; i < n; ++i) switch (st) {
        case 0: v.push_back(int(i)); break; case 1: v.push_back(-int(i)); break; case 2: v.push_back(7); break; case 3: v.push_back(int(r.below(k))); break;
        case 4: v.push_back(int(r.below(1000000))); break; case 5: v.push_back(int(i % per)); break; case 6: v.push_back(-int(i % per)); break;
        case 7: v.push_back(i < n / 2 ? int(i) : int(n - i)); break; default: v.push_back(i < n / 2 ? -int(i) : -int(n - i)); }
    char b[96]; snprintf(b, 96, "vals(rng=%llu n=%llu style=%d)", (ull)s, (ull)n, st); d = b; return v;
}
template <class C> static void run(Rng& r, std::vector<int> const& v, C comp, std::string const& d, int how) {
    a_case("cartesian_tree %s how=%d cmp=%d", d.c_str(), how, (int)comp(1, 2));
    cartesian_tree t;
    if (how == 0) { cartesian_tree x(v, comp); x.swap(t); }
    else { cartesian_tree::builder<int> b(how == 1 ? 0 : v.size()); for (int x : v) b.push_back(x, comp); cartesian_tree x(&b); x.swap(t); }
    uint64_t n = v.size();
    EQ((uint64_t)t.size(), n, "size"); if (!n) return;
    auto q = [&](uint64_t a, uint64_t z, uint64_t w) { EQ(t.rmq(a, z), w, "rmq(%llu,%llu)", (ull)a, (ull)z); };
    if (n <= 150) { for (uint64_t a = 0; a < n; ++a) { uint64_t w = a; for (uint64_t z = a; z < n; ++z) { if (comp(v[z], v[w])) w = z; q(a, z, w); } } return; }
    for (int k = 0; k < 300; ++k) { uint64_t a = r.below(n), z = std::min(n - 1, a + (r.coin(1, 2) ? r.below(300) : r.below(n))); if (k == 0) { a = 0; z = n - 1; } uint64_t w = a; for (uint64_t i = a; i <= z; ++i) if (comp(v[i], v[w])) w = i; q(a, z, w); }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); uint64_t it = 0;
    do { std::string d; auto v = vals(r, d, ++it % 8 == 0 ? 60000 : 5000); int how = int(r.below(3));
        if (r.coin(1, 2)) run(r, v, std::less<int>(), d, how); else run(r, v, std::greater<int>(), d, how);
        if (how == 0 && r.coin(1, 4) && v.size()) { cartesian_tree t(v); uint64_t a = r.below(v.size()), z = a + r.below(v.size() - a), w = a; for (uint64_t i = a; i <= z; ++i) if (v[i] < v[w]) w = i; EQ(t.rmq(a, z), w, "rmq(%llu,%llu) default comparator", (ull)a, (ull)z); }
    } while (more());
    return done();
}
