#include "bvlib.hpp"
static std::string trace;
static void op(const char* fmt, ...) { char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); trace += b; if (trace.size() > 900) trace = "..." + trace.substr(trace.size() - 880); g_case = trace; }
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    do {
        bits_t b = gen_bits(r, 3000); uint64_t n = b.size(); if (!n) continue;
        bit_vector v(b);
        {
            uint64_t p = r.coin(1, 2) ? 0 : r.below(n); trace.clear(); a_case("enum %s", DESC); op("%s enumerator@%llu ", DESC, (ull)p);
            bit_vector::enumerator e(v, p);
            for (int k = 0; k < 60 && p < n; ++k) {
                switch (r.below(3)) {
                case 0: op("next;"); EQ((bool)e.next(), (bool)b[p], "next at %llu: %s", (ull)p, trace.c_str()); ++p; break;
                case 1: { uint64_t l = std::min<uint64_t>(r.coin(1, 3) ? 64 : r.below(65), n - p); op("take(%llu);", (ull)l); uint64_t x = 0; for (uint64_t j = 0; j < l; ++j) if (b[p + j]) x |= 1ULL << j; EQ(e.take(l), x, "take(%llu) at %llu: %s", (ull)l, (ull)p, trace.c_str()); p += l; break; }
                case 2: { uint64_t q = p; while (q < n && !b[q]) ++q; if (q < n) { op("skip_zeros;"); EQ(e.skip_zeros(), q - p, "skip_zeros at %llu: %s", (ull)p, trace.c_str()); p = q + 1; } break; }
                }
                EQ(e.position(), p, "position after %s", trace.c_str());
            }
        }
        {
            std::vector<uint64_t> ones, zeros; for (uint64_t i = 0; i < n; ++i) (b[i] ? ones : zeros).push_back(i);
            uint64_t p = r.coin(1, 2) ? 0 : r.below(n); trace.clear(); a_case("unary %s", DESC); op("%s unary@%llu ", DESC, (ull)p);
            bit_vector::unary_enumerator e(v, p);
            uint64_t from = p;  // ones still ahead are those >= from
            for (int k = 0; k < 40; ++k) {
                size_t i1 = std::lower_bound(ones.begin(), ones.end(), from) - ones.begin();
                size_t i0 = std::lower_bound(zeros.begin(), zeros.end(), p) - zeros.begin();
                switch (r.below(4)) {
                case 0: if (i1 < ones.size()) { op("next;"); EQ(e.next(), ones[i1], "next: %s", trace.c_str()); p = ones[i1]; from = p + 1; } break;
                case 1: if (i1 < ones.size()) { uint64_t j = r.below(std::min<size_t>(ones.size() - i1, r.coin(1, 2) ? 5 : 300)); op("skip(%llu);", (ull)j); e.skip(j); p = ones[i1 + j]; from = p; } break;
                case 2: if (i1 < ones.size()) { uint64_t j = r.below(std::min<size_t>(ones.size() - i1, r.coin(1, 2) ? 5 : 300)); op("skip_no_move(%llu);", (ull)j); EQ(e.skip_no_move(j), ones[i1 + j], "skip_no_move: %s", trace.c_str()); } break;
                case 3: if (i0 < zeros.size()) { uint64_t j = r.below(std::min<size_t>(zeros.size() - i0, r.coin(1, 2) ? 5 : 300)); op("skip0(%llu);", (ull)j); e.skip0(j); p = zeros[i0 + j]; from = p; } break;
                }
                EQ(e.position(), p, "position after %s", trace.c_str());
            }
        }
    } while (more());
    return done();
}
