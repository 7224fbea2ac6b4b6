// F02: which channels the rolloff flagger marks.
#include "flag.hpp"
static void edges(const Shape &s, int layout, bool prior) {
    int64_t n = s[1]; float w = vf_realf("fraction", 0, 1); int64_t k = vf_pick("edge", 0, n); vf_assume(w * n < k + 0.4999 && w * n > k - 0.4999); // away from ties, where rounding decides
    auto m = make<uint8_t>("flags", s, layout); vf_assume(view_ok(m)); auto c = flag_filter_rolloff(channel(plain(s), m.v), w); for (int read = 0; read < 2; ++read) { ndarray f = flags_of(c, s);
    for (int64_t i = 0; i < count(s); ++i) { int64_t ch = i % n; bool edge = ch < k || ch >= n - k; uint8_t got = get<uint8_t>(f, i); vf_check(got == (edge ? m.at(i) | 1 : m.at(i)), edge ? "the edges are flagged" : "nothing else is flagged"); } } vf_cover("end");
}
ENTRY e_small() { static const Shape S[] = {{1, 1}, {2, 2}, {1, 3}, {3, 4}, {2, 5}, {1, 6}, {2, 7}, {1, 8}}; edges(S[vf_pick("shape", 0, 7)], vf_pick("layout", 0, NLAYOUTS - 1), true); }
ENTRY e_wide() { edges({1, THOROUGH ? 64 : 20}, DENSE, false); }
ENTRY e_none() { Shape s{2, 6}; auto m = make<uint8_t>("flags", s, DENSE); auto c = flag_filter_rolloff(channel(plain(s), m.v), 0); ndarray f = flags_of(c, s); for (int64_t i = 0; i < 12; ++i) vf_check(get<uint8_t>(f, i) == m.at(i), "a fraction of zero flags nothing"); vf_cover("end"); }
ENTRY e_long() { // more channels or spectra than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const struct { Shape s; float w; int64_t k; } P[] = {{{2, 70000}, 0.1f, 7000}, {{2, 132000}, 0.5f, 66000}, {{300, 260}, 0.3f, 78}, {{70000, 2}, 0.5f, 1}}; auto p = P[vf_pick("form", 0, 3)]; int64_t n = p.s[1]; auto m = make<uint8_t>("flags", p.s, n == 260 ? OFFSET : DENSE); vf_assume(view_ok(m)); auto c = flag_filter_rolloff(channel(plain(p.s), m.v), p.w); ndarray f = flags_of(c, p.s); auto in = places(f, p.s); auto g = f.data_ptr<uint8_t>();
    for (int64_t i = 0; i < count(p.s); ++i) { int64_t ch = i % n; bool edge = ch < p.k || ch >= n - p.k; vf_check(g[in[i]] == (edge ? m.at(i) | 1 : m.at(i)), edge ? "the edges are flagged" : "nothing else is flagged"); } vf_cover("end");
}
