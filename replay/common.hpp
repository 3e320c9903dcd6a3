#pragma once
// Native replay / bounded stand-in drivers: run the real code from /repo on generated inputs against a naive oracle.
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include <chrono>
#include <set>
#include <unordered_set>
#include <functional>
#include <unistd.h>
#include <signal.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
    uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
    bool coin(uint64_t num, uint64_t den) { return below(den) < num; }
};

static uint64_t g_seed = 1; static double g_budget = 10; static uint64_t g_evals = 0, g_distinct = 0;
static std::unordered_set<uint64_t> g_seen; static std::string g_case, g_sample; static std::chrono::steady_clock::time_point g_t0;
static void say_case() { if (!g_case.empty()) { const char* p = "CASE: "; (void)!write(1, p, 6); (void)!write(1, g_case.data(), g_case.size()); (void)!write(1, "\n", 1); } }
static void on_sig(int sg) { say_case(); char b[64]; int n = snprintf(b, sizeof b, "FAIL: signal %d (assertion or crash)\n", sg); (void)!write(1, b, n); _exit(1); }
extern "C" void __asan_on_error() { say_case(); const char* m = "FAIL: sanitizer report (see stderr)\n"; (void)!write(1, m, strlen(m)); }
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static bool more() { return elapsed() < g_budget; }
static void init(int argc, char** argv) {
    if (argc > 1) g_seed = strtoull(argv[1], 0, 10);
    if (argc > 2) g_budget = atof(argv[2]);
    g_t0 = std::chrono::steady_clock::now();
    signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); signal(SIGBUS, on_sig); signal(SIGALRM, on_sig);
    setvbuf(stdout, 0, _IOLBF, 0);
}
// describe the case about to run (so that a crash can be replayed)
static void a_case(const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    g_case = b; ++g_evals;
    uint64_t h = 1469598103934665603ULL; for (const char* p = b; *p; ++p) h = (h ^ uint8_t(*p)) * 1099511628211ULL;
    if (g_seen.size() < 2000000 && g_seen.insert(h).second) { ++g_distinct; if (g_distinct == 7) g_sample = b; if (g_sample.empty()) g_sample = b; }
    alarm(60);
}
[[noreturn]] static void fail(const char* fmt, ...) {
    say_case();
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("FAIL: %s\n", b); fflush(stdout); _exit(1);
}
static int done() { printf("OK evaluations=%llu distinct=%llu sample=%s\n", (unsigned long long)g_evals, (unsigned long long)g_distinct, g_sample.c_str()); fflush(stdout); _exit(0); }
#define EQ(a, b, ...) do { auto va_ = (a); auto vb_ = (b); if (!(va_ == vb_)) { char m_[512]; snprintf(m_, sizeof m_, __VA_ARGS__); fail("%s: got %lld, expected %lld (%s:%d)", m_, (long long)va_, (long long)vb_, "replay", __LINE__); } } while (0)

typedef std::vector<bool> bits_t;
// structured random bit sequences: densities, runs, all zero/one, periodic, boundary lengths
static std::string g_bdesc;
static bits_t gen_bits(Rng& r, uint64_t maxn, int style = -1) {
    static const uint64_t edge[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, 448, 511, 512, 513, 575, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072, 131073};
    uint64_t n = r.coin(1, 2) ? edge[r.below(sizeof(edge) / sizeof(edge[0]))] : r.below(maxn + 1);
    if (n > maxn) n = maxn ? r.below(maxn + 1) : 0;
    if (style < 0) style = int(r.below(9));
    uint64_t p = r.below(1000);
    bits_t b(n);
    uint64_t sd = r.s;
    switch (style) {
    case 0: break;
    case 1: for (uint64_t i = 0; i < n; ++i) b[i] = 1; break;
    case 2: for (uint64_t i = 0; i < n; ++i) b[i] = r.coin(1, 2); break;
    case 3: for (uint64_t i = 0; i < n; ++i) b[i] = r.coin(p, 1000); break;
    case 4: for (uint64_t i = 0; i < n; ++i) b[i] = r.coin(1, 300); break;
    case 5: for (uint64_t i = 0; i < n; ++i) b[i] = !r.coin(1, 300); break;
    case 6: { bool v = r.coin(1, 2); uint64_t i = 0; while (i < n) { uint64_t l = 1 + r.below(r.coin(1, 3) ? 2000 : 100); while (l-- && i < n) b[i++] = v; v = !v; } break; }
    case 7: { uint64_t per = 1 + r.below(130), off = r.below(per); for (uint64_t i = 0; i < n; ++i) b[i] = (i % per) == off; break; }
    case 8: { for (uint64_t i = 0; i < n; ++i) b[i] = 0; uint64_t k = r.below(6); while (k-- && n) b[r.coin(1, 2) ? r.below(n) : (r.coin(1, 2) ? n - 1 : 0)] = 1; break; }
    }
    char d[160]; snprintf(d, sizeof d, "bits(n=%llu style=%d p=%llu rngstate=%llu)", (unsigned long long)n, style, (unsigned long long)p, (unsigned long long)sd);
    g_bdesc = d;
    return b;
}
static std::string bstr(bits_t const& b, size_t lim = 200) { std::string s; for (size_t i = 0; i < b.size() && i < lim; ++i) s += b[i] ? '1' : '0'; if (b.size() > lim) s += "..."; return s; }
