#include "bvlib.hpp"
#include "succinct/util.hpp"
static std::string text(Rng& r, std::string& d) {
    uint64_t s = r.s; std::string t; uint64_t n = r.below(8); int st = int(r.below(6));
    for (uint64_t k = 0; k < n; ++k) {
        static const uint64_t L[] = {0, 1, 2, 65534, 65535, 65536, 65537, 131069, 131070, 131071};
        uint64_t l = st == 0 ? L[r.below(10)] : st == 1 ? 0 : r.below(50);
        for (uint64_t i = 0; i < l; ++i) t += st == 2 ? "\r ab"[r.below(4)] : char('a' + (k + i) % 26);
        if (st == 3 && r.coin(1, 2)) t += "\r"; if (st == 4 && r.coin(1, 3)) t += "\r\r";
        t += '\n';
    }
    if (r.coin(1, 2)) { uint64_t l = st == 0 ? 65530 + r.below(10) : r.below(6); for (uint64_t i = 0; i < l; ++i) t += 'z'; if (r.coin(1, 4)) t += '\r'; }
    char b[96]; snprintf(b, 96, "text(rng=%llu lines=%llu style=%d bytes=%llu)", (ull)s, (ull)n, st, (ull)t.size()); d = b; return t;
}
static std::vector<std::string> split(std::string const& t) { std::vector<std::string> o; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) { o.push_back(t.substr(i)); break; } o.push_back(t.substr(i, j - i + 1)); i = j + 1; } return o; }
static std::string trim(std::string s) { while (s.size() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
#define SEQ(a, b, ...) do { if ((a) != (b)) { char m_[256]; snprintf(m_, sizeof m_, __VA_ARGS__); fail("%s: got %llu bytes, expected %llu bytes (or contents differ)", m_, (ull)(a).size(), (ull)(b).size()); } } while (0)
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    char fn[64]; snprintf(fn, 64, "lines.%d.txt", (int)getpid());
    do {
        std::string d, t = text(r, d); auto L = split(t); bool tr = r.coin(1, 2);
        { FILE* f = fopen(fn, "wb"); if (!f) return done(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
        a_case("fast_getline trim=%d %s", tr, d.c_str());
        { util::auto_file f(fn); std::string l; for (size_t k = 0; k < L.size(); ++k) { if (!util::fast_getline(l, f.get(), tr)) fail("fast_getline stopped at line %llu of %llu", (ull)k, (ull)L.size()); std::string w = tr ? trim(L[k]) : L[k]; SEQ(l, w, "line %llu", (ull)k); } if (util::fast_getline(l, f.get(), tr)) fail("fast_getline returned an extra line (%llu bytes) after %llu", (ull)l.size(), (ull)L.size()); if (util::fast_getline(l, f.get(), tr)) fail("fast_getline returned a line after the end"); }
        a_case("lines trim=%d %s", tr, d.c_str());
        { util::auto_file f(fn); util::line_range_t g = util::lines(f.get(), tr); size_t k = 0; for (auto it = g.first; it != g.second; ++it, ++k) { if (k >= L.size()) fail("line iterator yields more than %llu lines", (ull)L.size()); std::string w = tr ? trim(L[k]) : L[k]; SEQ(*it, w, "iterator line %llu", (ull)k); } EQ((uint64_t)k, (uint64_t)L.size(), "lines yielded"); }
        a_case("buffer_line_iterator %s", d.c_str());
        { std::vector<char> buf(t.begin(), t.end()); size_t k = 0; for (util::buffer_line_iterator it(buf.data() ? buf.data() : fn, buf.size()), e; it != e; ++it, ++k) { if (k >= L.size()) fail("buffer iterator yields more than %llu lines", (ull)L.size()); std::string w = L[k]; if (w.size() && w.back() == '\n') w.pop_back(); if (w.size() && w.back() == '\r') w.pop_back(); SEQ(*it, w, "buffer line %llu", (ull)k); } EQ((uint64_t)k, (uint64_t)L.size(), "buffer lines yielded"); }
        if (t.size()) { a_case("mmap_lines %s", d.c_str()); util::mmap_lines m(fn); size_t k = 0; for (auto it = m.begin(); it != m.end(); ++it, ++k) { if (k >= L.size()) fail("mmap_lines yields too many lines"); std::string w = L[k]; if (w.size() && w.back() == '\n') w.pop_back(); if (w.size() && w.back() == '\r') w.pop_back(); SEQ(*it, w, "mmap line %llu", (ull)k); } EQ((uint64_t)k, (uint64_t)L.size(), "mmap lines yielded"); }
        { std::string s; uint64_t n = r.below(8); while (n--) s += "a\r\nb"[r.below(4)]; a_case("trim_newline_chars %llu", (ull)r.s); std::string w = trim(s); util::trim_newline_chars(s); SEQ(s, w, "trim"); }
    } while (more());
    remove(fn);
    return done();
}
