#pragma once
#include "bvlib.hpp"
#include "succinct/bp_vector.hpp"
static std::string g_pdesc;
// balanced (or, with opens_left > 0, prefix-nonnegative) parentheses of 2*half + opens_left bits
static bits_t gen_bp(Rng& r, uint64_t half, uint64_t opens_left = 0) {
    uint64_t s0 = r.s; int st = int(r.below(9)); bits_t b; uint64_t n = 2 * half + opens_left; int64_t exc = 0; uint64_t opens = half + opens_left, closes = half;
    uint64_t p = 300 + r.below(400); uint64_t runlen = 1 + r.below(r.coin(1, 3) ? 9000 : 300); uint64_t floor_ = r.below(200);
    uint64_t left = 0; bool cur = true;
    for (uint64_t i = 0; i < n; ++i) {
        bool o;
        switch (st) {
        case 0: o = true; break;                                   // deep
        case 1: o = exc == 0; break;                               // flat ()()()
        case 2: o = r.coin(1, 2); break;
        case 3: o = r.coin(p, 1000); break;
        case 4: if (!left) { left = runlen; cur = !cur; if (r.coin(1, 4)) left = 1 + r.below(runlen); } --left; o = !cur; break; // sawtooth
        case 5: o = exc < int64_t(floor_) ? true : r.coin(1, 2); break; // plateau: reflected above a floor
        case 6: o = (i & 1) == 0; if (i < n / 4) o = true; break;        // rise, then zigzag at one level, then fall
        case 7: if (!left) { left = 1 + r.below(600); cur = !cur; } --left; o = cur; break;
        default: { uint64_t d = runlen; o = (exc < int64_t(d)) ? r.coin(9, 10) : r.coin(1, 10); } break;
        }
        if (o && !opens) o = false;
        if (!o && (exc == 0 || !closes)) o = true;
        if (o && opens) { --opens; ++exc; } else { o = false; --closes; --exc; }
        b.push_back(o);
    }
    char d[128]; snprintf(d, 128, "bp(rng=%llu half=%llu extra_opens=%llu style=%d)", (ull)s0, (ull)half, (ull)opens_left, st); g_pdesc = d;
    return b;
}
static uint64_t gen_half(Rng& r, bool big) {
    static const uint64_t e[] = {1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 8192, 12288};
    if (big) return 20000 + r.below(120000);
    return r.coin(1, 3) ? e[r.below(19)] : r.coin(1, 2) ? 1 + r.below(300) : 1 + r.below(9000);
}
