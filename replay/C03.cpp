#include "bvlib.hpp"
static std::string trace;
static void op(const char* fmt, ...) { char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); trace += b; if (trace.size() > 900) trace = "..." + trace.substr(trace.size() - 880); g_case = trace; }
static void same(bit_vector_builder& bb, bits_t const& m) {
    EQ(bb.size(), (uint64_t)m.size(), "builder size after %s", trace.substr(trace.size() > 300 ? trace.size() - 300 : 0).c_str());
    bit_vector_builder cp; cp.append(bb);
    bit_vector w(&cp);
    EQ((uint64_t)w.size(), (uint64_t)m.size(), "copied size");
    EQ((uint64_t)w.data().size(), (uint64_t)((m.size() + 63) / 64), "number of words");
    for (uint64_t i = 0; i < w.data().size() * 64; ++i) EQ((int)(w.data()[i / 64] >> (i % 64) & 1), (int)(i < m.size() ? m[i] : 0), "bit %llu of %llu after %s", (ull)i, (ull)m.size(), trace.substr(trace.size() > 300 ? trace.size() - 300 : 0).c_str());
}
static void history(Rng& r, int len) {
    trace.clear(); a_case("history rng=%llu", (ull)r.s);
    uint64_t n0 = r.coin(1, 2) ? 0 : r.below(300); bool i0 = r.coin(1, 2);
    bit_vector_builder bb(n0, i0); bits_t m(n0, i0); op("ctor(%llu,%d);", (ull)n0, i0);
    bit_vector_builder other; bits_t om;
    for (int k = 0; k < len; ++k) {
        switch (r.below(12)) {
        case 0: { bool b = r.coin(1, 2); op("push(%d);", b); bb.push_back(b); m.push_back(b); break; }
        case 1: case 2: { uint64_t l = r.coin(1, 3) ? 64 : r.coin(1, 4) ? (64 - m.size() % 64) % 65 : r.below(65); uint64_t x = l == 64 ? r() : r() & ((1ULL << l) - 1); if (r.coin(1, 5)) x = l == 64 ? ~0ULL : (1ULL << l) - 1; op("append_bits(%llu,%llu);", (ull)x, (ull)l); bb.append_bits(x, l); for (uint64_t j = 0; j < l; ++j) m.push_back(x >> j & 1); break; }
        case 3: if (m.size()) { uint64_t p = r.below(m.size()); bool b = r.coin(1, 2); op("set(%llu,%d);", (ull)p, b); bb.set(p, b); m[p] = b; } break;
        case 4: if (m.size()) { uint64_t p = r.below(m.size() + 1); uint64_t l = std::min<uint64_t>(r.coin(1, 3) ? 64 : r.below(65), m.size() - p); uint64_t x = l == 64 ? r() : r() & ((1ULL << l) - 1); op("set_bits(%llu,%llu,%llu);", (ull)p, (ull)x, (ull)l); bb.set_bits(p, x, l); for (uint64_t j = 0; j < l; ++j) m[p + j] = x >> j & 1; } break;
        case 5: { uint64_t l = r.coin(1, 2) ? r.below(10) : r.below(200); op("zero_extend(%llu);", (ull)l); bb.zero_extend(l); for (uint64_t j = 0; j < l; ++j) m.push_back(0); break; }
        case 6: { uint64_t l = r.coin(1, 2) ? r.below(10) : r.below(200); op("one_extend(%llu);", (ull)l); bb.one_extend(l); for (uint64_t j = 0; j < l; ++j) m.push_back(1); break; }
        case 7: { op("append(other[%llu]);", (ull)om.size()); bb.append(other); m.insert(m.end(), om.begin(), om.end()); break; }
        case 8: { op("reverse;"); bb.reverse(); std::reverse(m.begin(), m.end()); break; }
        case 9: { uint64_t l = m.size() + r.below(5000); op("reserve(%llu);", (ull)l); bb.reserve(l); break; }
        case 10: { op("swap;"); bb.swap(other); m.swap(om); break; }
        case 11: { if (m.size() > 3000) { op("fresh;"); bit_vector v(&bb); EQ((uint64_t)v.size(), (uint64_t)m.size(), "frozen size"); for (uint64_t i = 0; i < m.size(); ++i) EQ((bool)v[i], (bool)m[i], "frozen bit %llu after %s", (ull)i, trace.c_str()); bit_vector_builder nb; bb.swap(nb); m.clear(); } break; }
        }
        if (r.coin(1, 3)) same(bb, m);
    }
    same(bb, m); same(other, om);
    bit_vector v(&bb); EQ((uint64_t)v.size(), (uint64_t)m.size(), "frozen size");
    for (uint64_t i = 0; i < m.size(); ++i) EQ((bool)v[i], (bool)m[i], "frozen bit %llu after %s", (ull)i, trace.c_str());
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    do {
        history(r, 1 + r.below(30));
        { bits_t b = gen_bits(r, 600); a_case("range %s", DESC); bit_vector v(b); EQ((uint64_t)v.size(), (uint64_t)b.size(), "range size"); for (uint64_t i = 0; i < b.size(); ++i) EQ((bool)v[i], (bool)b[i], "range bit %llu", (ull)i); EQ((uint64_t)v.data().size(), (uint64_t)(b.size() + 63) / 64, "words"); if (b.size() % 64) EQ(v.data()[b.size() / 64] >> (b.size() % 64), (uint64_t)0, "padding"); }
    } while (more());
    return done();
}
