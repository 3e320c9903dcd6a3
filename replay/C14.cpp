#include "bvlib.hpp"
#include "succinct/mapper.hpp"
#include "succinct/rs_bit_vector.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
#include "succinct/elias_fano.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/forward_enumerator.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/bp_vector.hpp"
#include "succinct/cartesian_tree.hpp"
#include "succinct/topk_vector.hpp"
#include "succinct/nibble_vector.hpp"
#include <sstream>
#include <memory>
typedef std::vector<uint64_t> dig;
static char g_fn[64];
static std::vector<char> slurp() { std::ifstream f(g_fn, std::ios::binary); return std::vector<char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static uint64_t leaf_sum(mapper::size_node_ptr const& n) { uint64_t s = 0; for (auto& c : n->children) s += c->size; return s; }
static void tree(mapper::size_node_ptr const& n) { if (n->children.size()) { if (leaf_sum(n) > n->size) fail("size tree: children of %s add up to %llu > %llu", n->name.c_str(), (ull)leaf_sum(n), (ull)n->size); for (auto& c : n->children) tree(c); } }
// freeze, compare sizes, map back from an exactly sized buffer, compare all query answers
template <class T, class F> static void round_trip(Rng& r, T& v, const char* nm, F digest, bool reuse = true) {
    uint64_t fl = r.coin(1, 2) ? 0 : r();
    a_case("freeze/map %s %s", nm, DESC);
    dig want = digest(v);
    uint64_t w;
    if (r.coin(1, 2)) { w = mapper::freeze(v, g_fn, fl); }
    else { std::ofstream f(g_fn, std::ios::binary); w = mapper::freeze(v, f, fl); EQ((uint64_t)f.tellp(), w, "%s: bytes in the stream", nm); }
    std::vector<char> img = slurp();
    EQ((uint64_t)img.size(), w, "%s: file size against bytes reported by freeze", nm);
    EQ((uint64_t)mapper::size_of(v) + 8, w, "%s: size_of + header against bytes written", nm);
    { uint64_t h; memcpy(&h, img.data(), 8); EQ(h, fl, "%s: flags in the header", nm); }
    mapper::size_node_ptr t = mapper::size_tree_of(v, "top"); EQ((uint64_t)t->size, w - 8, "%s: size tree total", nm); if (t->name != "top") fail("size tree name"); tree(t);
    if (digest(v) != want) fail("%s changed by freezing", nm);
    char* heap = new char[w]; memcpy(heap, img.data(), w);
    for (int warm = 0; warm < 2; ++warm) {
        T x; uint64_t got = mapper::map(x, heap, warm ? mapper::map_flags::warmup : 0);
        EQ(got, w, "%s: bytes read by map (warmup=%d)", nm, warm);
        dig d = digest(x);
        if (d != want) { size_t k = 0; while (k < d.size() && k < want.size() && d[k] == want[k]) ++k; fail("%s: mapped structure answers differently (warmup=%d, answer %llu of %llu: got %lld, expected %lld)", nm, warm, (ull)k, (ull)want.size(), k < d.size() ? (long long)d[k] : -1LL, k < want.size() ? (long long)want[k] : -1LL); }
        EQ((uint64_t)mapper::size_of(x) + 8, w, "%s: size_of the mapped structure", nm);
        // freeze the mapped structure again: same image
        { uint64_t w2 = mapper::freeze(x, g_fn, fl); std::vector<char> i2 = slurp(); EQ(w2, w, "%s: second freeze", nm); if (i2 != img) fail("%s: freezing the mapped structure gives another image", nm); }
        if (reuse) { T y; y.swap(x); if (digest(y) != want) fail("%s: swap after map", nm); uint64_t g2 = mapper::map(y, heap, 0); EQ(g2, w, "%s: map over a used structure", nm); if (digest(y) != want) fail("%s: second map into the same structure", nm); }
    }
    if (memcmp(heap, img.data(), w)) fail("%s: mapping or querying wrote into the image", nm);
    delete[] heap;
    // map over an owning structure, two structures in one file
    { std::ofstream f(g_fn, std::ios::binary); uint64_t a = mapper::freeze(v, f, fl), b = mapper::freeze(v, f, 0); f.close(); std::vector<char> two = slurp(); EQ((uint64_t)two.size(), a + b, "%s: two images in one file", nm);
      T x; EQ((uint64_t)mapper::map(x, two.data() + a, 0), b, "%s: second image", nm); if (digest(x) != want) fail("%s: second image in a file", nm);
      EQ((uint64_t)mapper::map(v, two.data(), 0), a, "%s: map over the original", nm); if (digest(v) != want) fail("%s: map over the original", nm);
      T fresh; fresh.swap(v); }
}
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static uint64_t heap_now() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
template <class T> struct shadow { mapper::mappable_vector<T> m; std::vector<T> s; };
template <class T> static void history(Rng& r, const char* nm);
template <class T> static void histories(Rng& r, const char* nm) {
    uint64_t st = r.s; a_case("mappable_vector<%s> history rng=%llu", nm, (ull)st);
    uint64_t h0 = heap_now(); history<T>(r, nm); uint64_t h1 = heap_now();
    if (h1 != h0) fail("storage not freed exactly once: %lld bytes more on the heap after all vectors are destroyed", (long long)(h1 - h0));
}
template <class T> static void history(Rng& r, const char* nm) {
    std::vector<std::unique_ptr<shadow<T>>> o; for (int k = 0; k < 3; ++k) o.emplace_back(new shadow<T>);
    std::vector<std::unique_ptr<char[]>> imgs;
    auto rnd = [&]() { uint64_t n = r.coin(1, 4) ? r.below(2) : r.below(40); std::vector<T> v; while (n--) v.push_back(T(r())); return v; };
    auto chk = [&](shadow<T>& x) { EQ((uint64_t)x.m.size(), (uint64_t)x.s.size(), "size"); if ((uint64_t)(x.m.end() - x.m.begin()) != x.s.size()) fail("end - begin"); for (uint64_t i = 0; i < x.s.size(); ++i) { EQ((uint64_t)x.m[i], (uint64_t)x.s[i], "[%llu]", (ull)i); if (&x.m[i] != x.m.data() + i) fail("data"); } };
    uint64_t n = 1 + r.below(25);
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t i = r.below(3), j = r.below(3);
        switch (r.below(8)) {
        case 0: { auto v = rnd(); o[i]->m.assign(v); o[i]->s = v; break; }
        case 1: { auto v = rnd(); o[i]->s = v; bool e = v.empty(); o[i]->m.steal(v); if (!e && !v.empty()) fail("steal left the source vector full"); break; }
        case 2: o[i]->m.swap(o[j]->m); o[i]->s.swap(o[j]->s); break;
        case 3: o[i]->m.clear(); o[i]->s.clear(); break;
        case 4: o[i].reset(new shadow<T>); break;
        case 5: { auto v = rnd(); mapper::mappable_vector<T> x(v); x.swap(o[i]->m); o[i]->s = v; break; }
        case 6: { uint64_t w = mapper::freeze(o[i]->m, g_fn); auto im = slurp(); EQ((uint64_t)im.size(), w, "file size"); EQ(w, 16 + o[i]->s.size() * sizeof(T), "bytes written"); EQ((uint64_t)mapper::size_of(o[i]->m), w - 8, "size_of"); std::unique_ptr<char[]> b(new char[w]); memcpy(b.get(), im.data(), w); EQ((uint64_t)mapper::map(o[j]->m, b.get(), r.coin(1, 2) ? 1 : 0), w, "bytes read"); o[j]->s = o[i]->s; imgs.push_back(std::move(b)); break; }
        case 7: { std::vector<T> v(o[i]->s.rbegin(), o[i]->s.rend()); o[j]->m.assign(v); o[j]->s = v; break; }
        }
        for (auto& x : o) chk(*x);
    }
}
static bits_t parens(Rng& r, uint64_t n) { bits_t b; uint64_t ex = 0; uint64_t st = r.below(3); for (uint64_t i = 0; i < n; ++i) { bool open = st == 0 ? r.coin(1, 2) : st == 1 ? i < n / 2 : r.coin(2, 3); if (!ex) open = true; b.push_back(open); ex += open ? 1 : -1; } while (ex--) b.push_back(false); return b; }
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); snprintf(g_fn, 64, "img.%d.bin", (int)getpid());
    do {
        bits_t b = gen_bits(r, r.coin(1, 8) ? 40000 : 3000); uint64_t ones = 0; for (bool x : b) ones += x; uint64_t zeros = b.size() - ones;
        uint64_t qs = r();
        auto some = [&](uint64_t n, auto f) { Rng q(qs); if (!n) return; for (int k = 0; k < 60; ++k) f(k == 0 ? 0 : k == 1 ? n - 1 : q.below(n)); };
        switch (r.below(14)) {
        case 0: { bit_vector_builder bb; fill(bb, b); bit_vector v(&bb); round_trip(r, v, "bit_vector", [&](bit_vector& x) { dig d{x.size()}; for (uint64_t i = 0; i < x.size(); ++i) d.push_back(x[i]); some(x.size(), [&](uint64_t p) { d.push_back(x.get_word(p)); }); return d; }); break; }
        case 1: { bool h1 = r.coin(1, 2), h0 = r.coin(1, 2); bit_vector_builder bb; fill(bb, b); rs_bit_vector v(&bb, h1, h0); round_trip(r, v, "rs_bit_vector", [&](rs_bit_vector& x) { dig d{x.size()}; if (x.size() || &x) { d.push_back(x.num_ones()); d.push_back(x.num_zeros()); } some(x.size(), [&](uint64_t p) { d.push_back(x[p]); d.push_back(x.rank(p)); d.push_back(x.rank0(p)); }); some(ones, [&](uint64_t p) { d.push_back(x.select(p)); }); some(zeros, [&](uint64_t p) { d.push_back(x.select0(p)); }); return d; }); break; }
        case 2: { bit_vector_builder bb; fill(bb, b); bit_vector v(&bb); darray1 a(v); darray0 z(v); round_trip(r, a, "darray1", [&](darray1& x) { dig d{x.num_positions()}; some(ones, [&](uint64_t p) { d.push_back(x.select(v, p)); }); return d; }); round_trip(r, z, "darray0", [&](darray0& x) { dig d{x.num_positions()}; some(zeros, [&](uint64_t p) { d.push_back(x.select(v, p)); }); return d; }); break; }
        case 3: { darray64::builder bb; uint64_t n = r.below(3000); for (uint64_t k = 0; k < n; ++k) bb.append1(r.below(r.coin(1, 20) ? 60 : 4)); g_bdesc = "darray64 rng=" + std::to_string(r.s); darray64 v(&bb); round_trip(r, v, "darray64", [&](darray64& x) { dig d{x.num_ones(), x.bits().size()}; some(n, [&](uint64_t p) { d.push_back(x.select(p)); }); return d; }); break; }
        case 4: { bit_vector_builder bb; fill(bb, b); elias_fano v(&bb, r.coin(1, 2)); round_trip(r, v, "elias_fano", [&](elias_fano& x) { dig d{x.size(), x.num_ones()}; some(ones, [&](uint64_t p) { d.push_back(x.select(p)); d.push_back(x.delta(p)); }); if (ones) { elias_fano::select_enumerator e(x, 0); for (uint64_t k = 0; k < std::min<uint64_t>(ones, 200); ++k) d.push_back(e.next()); } return d; }); break; }
        case 5: { bit_vector_builder bb; fill(bb, b); elias_fano v(&bb); round_trip(r, v, "elias_fano with rank index", [&](elias_fano& x) { dig d{x.size(), x.num_ones()}; some(x.size(), [&](uint64_t p) { d.push_back(x[p]); d.push_back(x.rank(p)); }); return d; }); break; }
        case 6: { std::vector<uint64_t> v; uint64_t n = r.below(600); while (n--) v.push_back(r() >> (10 + r.below(54))); elias_fano_list l(v); round_trip(r, l, "elias_fano_list", [&](elias_fano_list& x) { dig d{x.size()}; for (uint64_t i = 0; i < x.size(); ++i) d.push_back(x[i]); return d; });
            elias_fano_compressed_list c(v); round_trip(r, c, "elias_fano_compressed_list", [&](elias_fano_compressed_list& x) { dig d{x.size()}; for (uint64_t i = 0; i < x.size(); ++i) d.push_back(x[i]); return d; }); break; }
        case 7: { std::vector<uint64_t> v; uint64_t n = 1 + r.below(600); while (n--) v.push_back(r() >> (2 + r.below(62))); gamma_vector l(v); round_trip(r, l, "gamma_vector", [&](gamma_vector& x) { dig d{x.size()}; for (uint64_t i = 0; i < v.size(); ++i) d.push_back(x[i]); return d; }); gamma_bit_vector c(v); round_trip(r, c, "gamma_bit_vector", [&](gamma_bit_vector& x) { dig d{x.size()}; for (uint64_t i = 0; i < v.size(); ++i) d.push_back(x[i]); return d; }); break; }
        case 8: { bits_t p = parens(r, r.below(3000)); bit_vector_builder bb; fill(bb, p); bp_vector v(&bb, r.coin(1, 2), r.coin(1, 2)); round_trip(r, v, "bp_vector", [&](bp_vector& x) { dig d{x.size()}; some(x.size(), [&](uint64_t i) { d.push_back(p[i] ? x.find_close(i) : x.find_open(i)); d.push_back(x.excess(i)); d.push_back(x.excess_rmq(i / 2, i)); }); return d; }); break; }
        case 9: { std::vector<int> v; uint64_t n = r.below(2000); while (n--) v.push_back(int(r.below(50))); cartesian_tree t(v); round_trip(r, t, "cartesian_tree", [&](cartesian_tree& x) { dig d{x.size()}; some(v.size(), [&](uint64_t i) { d.push_back(x.rmq(i / 2, i)); }); return d; }); break; }
        case 10: { std::vector<unsigned char> v; uint64_t n = r.below(300); while (n--) v.push_back(r() & 15); nibble_vector t(v); round_trip(r, t, "nibble_vector", [&](nibble_vector& x) { dig d{x.size()}; for (uint64_t i = 0; i < x.size(); ++i) d.push_back(x[i]); return d; }); break; }
        case 11: histories<uint64_t>(r, "uint64_t"); histories<uint8_t>(r, "uint8_t"); break;
        case 12: histories<uint16_t>(r, "uint16_t"); break;
        case 13: { std::vector<uint64_t> v; uint64_t n = r.below(500); while (n--) v.push_back(r.below(100)); topk_vector<elias_fano_compressed_list> t(v); round_trip(r, t, "topk_vector", [&](topk_vector<elias_fano_compressed_list>& x) { dig d; some(v.size(), [&](uint64_t i) { auto k = x.topk(i / 2, i, 4); for (auto& e : k) { d.push_back(boost::get<0>(e)); d.push_back(boost::get<1>(e)); } }); return d; }); break; }
        }
    } while (more());
    remove(g_fn);
    return done();
}
