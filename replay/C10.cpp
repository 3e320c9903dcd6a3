#include "bplib.hpp"
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); uint64_t it = 0;
    do {
        bool big = ++it % 10 == 0;
        bits_t b = gen_bp(r, gen_half(r, big)); uint64_t n = b.size();
        std::vector<uint64_t> mt(n), en(n, uint64_t(-1)), st;
        for (uint64_t i = 0; i < n; ++i) if (b[i]) { if (st.size()) en[i] = st.back(); st.push_back(i); } else { mt[i] = st.back(); mt[st.back()] = i; st.pop_back(); }
        a_case("%s", g_pdesc.c_str());
        bit_vector_builder bb; fill(bb, b); bp_vector v0(&bb, r.coin(1, 2), r.coin(1, 2)), v; v0.swap(v);
        auto q = [&](uint64_t i) {
            if (b[i]) { EQ(v.find_close(i), mt[i], "find_close(%llu)", (ull)i); if (en[i] != uint64_t(-1)) EQ(v.enclose(i), en[i], "enclose(%llu)", (ull)i); }
            else EQ(v.find_open(i), mt[i], "find_open(%llu)", (ull)i);
        };
        if (n <= 12000) for (uint64_t i = 0; i < n; ++i) q(i);
        else {
            for (int t = 0; t < 6000; ++t) q(r.below(n));
            for (uint64_t i = 0; i < n; i += 64) { q(i); if (i) q(i - 1); if (i + 1 < n) q(i + 1); }
        }
    } while (more());
    return done();
}
