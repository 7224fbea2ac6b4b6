// C03: how a band is divided into coarse channels.
#include "fil.hpp"
static const double F[][2] = {{2.84e-6, 17.98}, {0.36621, 0.00034953}, {2.86e-3, 1.06}, {2.93e-6, 17.4}, {2.86e-3, 1.02}, {2.79e-6, 18.25}, {2.86e-3, 1.07}, {1e-6, 1}, {-2.79e-6, 18.25}, {1, 100}};
static const double KNOWN[][3] = {{1033216, 2.84, 17.98}, {8, 366210, 0.00034953}, {1024, 2860, 1.06}, {999424, 2.93, 17.4}, {1024, 2860, 1.02}, {1048576, 2.79, 18.25}, {1024, 2860, 1.07}};
static double mag(double x) { return x < 0 ? -x : x; }
static bool fits(int k, double foff, double tsamp, double within) { double df = mag(foff) * 1e6 - KNOWN[k][1], dt = mag(tsamp) - KNOWN[k][2]; return df < within && df > -within && dt < within && dt > -within; }
static void divided(int64_t n, double foff, double tsamp, bool fixed = true) {
    Header h; h.nchans = n; h.T = 2; h.foff = foff; h.tsamp = tsamp; file_of(h, false); scan s("file.h5"); int64_t c = s.get_number_coarse_channels(); vf_check(c >= 1, "at least one coarse channel"); if (c < 1) return;
    auto first = s.read_coarse_channel(0); int64_t per = first->nchans(); vf_check(per >= 1 && c * per == n, "coarse channels make up the band");
    if (fixed) { auto last = s.read_coarse_channel(c - 1); vf_check(last->nchans() == per, "all alike"); vf_close(last->fch1(), h.fch1 + foff * ((double)n - (double)per), 1e-3, "the last one ends the band"); }
    bool may = false, must = false, as = false; for (int k = 0; k < 7; ++k) { int64_t p = KNOWN[k][0]; bool near = fits(k, foff, tsamp, 0.101); if (near && n % p == 0) { may = true; as |= per == p; must |= fits(k, foff, tsamp, 0.099); } }
    bool workable = (per >= 1 << 18 && per < 1 << 19) || (per >= 1000000 && per < 2000000) || c == 1; if (n % (1 << 18) == 0) workable = per == 1 << 18;
    vf_check((as && may) || (!must && workable), "the known channelization, or else a workable size"); vf_cover("end");
}
static int64_t bits(const char *name, int n) { uint32_t v = vf_u32(name); return (int64_t)(v & ((1u << n) - 1)); }
ENTRY e_any() { static const int64_t Q[] = {0, 1, 2, 3, 5, 16, 63, 252, 1000, 4095, 32767}; int64_t n = Q[vf_pick("units", 0, THOROUGH ? 10 : 7)] * (1 << 18) + bits("remainder", 18); vf_assume(n >= 1); divided(n, 1, 100, false); } // whole number of units and any remainder
ENTRY e_known() { // whole numbers of known coarse channels, and nearly so
    static const int64_t P[] = {1033216, 8, 1024, 999424, 1048576, 1 << 18, 1000000}; static const int64_t K[] = {1, 2, 3, 64, 640, 2048}; int w = vf_pick("resolution", 0, 9), p = vf_pick("channel", 0, 6), k = vf_pick("count", 0, 5); divided(P[p] * K[k] + vf_pick("more", 0, 2) - (P[p] > 1), F[w][0], F[w][1]);
}
ENTRY e_multiple() { int64_t k = 1 + bits("count", THOROUGH ? 13 : 8); int w = vf_pick("scheme", 0, 6); divided(k * (int64_t)KNOWN[w][0], KNOWN[w][1] * 1e-6, KNOWN[w][2], false); } // any number of coarse channels of a known scheme
ENTRY e_resolution() { // any resolution: around those of the fine, of the medium and of the high-time-resolution products
    static const double AT[][4] = {{-4e-6, 4e-6, 10, 20}, {2859.5e-6, 2860.5e-6, 0.8, 1.3}, {0.3662095, 0.3662105, 1e-5, 0.2}}; static const int64_t N[][5] = {{1048576, 2 * 999424, 1033216, 1000, 3 << 18}, {1024, 3072, 1000, 1 << 18, 1536}, {8, 24, 12, 7, 1000}};
    int w = vf_pick("product", 0, 2); double f = vf_real("foff", AT[w][0], AT[w][1]), t = vf_real("tsamp", AT[w][2], AT[w][3]); if (w && vf_pick("down", 0, 1)) f = -f; divided(N[w][vf_pick("channels", 0, 4)], f, t);
}
static void requested(int64_t nchans, int per) {
    Header h; h.nchans = nchans; h.T = 1; file_of(h, false); scan s; bool threw = throws([&] { s = scan("file.h5", per); }); vf_check(threw == (per < 0), "splits into negative channels are rejected"); if (threw) { vf_cover("rejected"); return; }
    int64_t c = s.get_number_coarse_channels(), left = h.nchans - c * per; vf_check(left >= 0 && left < per && c >= 0, "as many coarse channels as fit"); if (c == 0) vf_check(throws([&] { s.read_coarse_channel(0); }), "and no more"); else { auto x = s.read_coarse_channel(0); vf_check(x->nchans() == per, "of the requested size"); } vf_cover("end");
}
ENTRY e_requested() { requested(1 + bits("channels", THOROUGH ? 12 : 8), 1 + bits("per coarse", THOROUGH ? 12 : 8)); }
ENTRY e_far() { int per = vf_u32("per coarse"); vf_assume(per < 0 || per > 4096); requested(1 + bits("channels", 12), per); } // negative and larger than the band
ENTRY e_after() { // whatever file was opened before
    static const int64_t N[] = {(1 << 18) * 3 + 6, 3000006, 7000, 1033216 * 2, 1 << 20, 8 * 5}; int a = vf_pick("earlier", 0, 5), b = vf_pick("later", 0, 5); int wa = vf_pick("resolution", 0, 2), wb = vf_pick("later resolution", 0, 2); static const int W[] = {0, 1, 9};
    divided(N[a], F[W[wa]][0], F[W[wa]][1]); divided(N[b] + vf_pick("more", 0, 1) * 12, F[W[wb]][0], F[W[wb]][1]);
}
