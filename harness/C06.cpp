// C06: the coarse channel of a frequency.
#include "fil.hpp"
static const double F[] = {-0.5, 0.25, 2.79e-6, -2.79e-6, 1};
static const int64_t S[][2] = {{12, 4}, {10, 3}, {1048576 * 3, 1048576}, {6, 1}, {7, 7}};
static void found(scan &s, double fch1, double foff, int64_t per, int64_t n, double f) {
    double x = f - fch1; for (int64_t k = 0; k <= n; ++k) { double edge = foff * (per * k); vf_assume(x - edge > 1e-3 * foff || x - edge < -1e-3 * foff); vf_assume(x - edge > -1e-3 * foff || x - edge < 1e-3 * foff); } // away from the edges of channels, where rounding decides
    bool inside = foff > 0 ? x >= 0 && x < foff * (per * n) : x <= 0 && x > foff * (per * n); int i = -1; bool threw = throws([&] { i = s.get_coarse_channel_with_frequency(f); });
    vf_check(threw == !inside, "exactly the frequencies of the band are accepted"); if (threw || !inside) { vf_cover("outside"); return; }
    vf_check(i >= 0 && i < n, "a channel of the scan"); double lo = foff * per * i, hi = foff * per * (i + 1); vf_check(foff > 0 ? x >= lo && x < hi : x <= lo && x > hi, "the channel contains the frequency"); vf_cover("end");
}
ENTRY e_band() { int w = vf_pick("width", 0, 4), k = vf_pick("split", 0, 4); Header h; h.nchans = S[k][0]; h.foff = F[w]; h.fch1 = vf_real("fch1", 100, 10000); file_of(h, false); scan s("file.h5", S[k][1]); double span = h.foff * h.nchans; if (span < 0) span = -span; found(s, h.fch1, h.foff, S[k][1], S[k][0] / S[k][1], h.fch1 + vf_real("away", -2, 2) * span); }
ENTRY e_sliced() { int w = vf_pick("width", 0, 1); Header h; h.nchans = 12; h.foff = F[w]; h.fch1 = vf_real("fch1", 100, 10000); file_of(h, false); scan s("file.h5", 2); int a = vf_pick("start", 0, 5), n = vf_pick("count", 1, 6); if (a + n > 6) { vf_cover("end"); return; } scan t = s.slice_scan_channels(a, n); found(t, h.fch1 + h.foff * (2 * a), h.foff, 2, n, vf_real("frequency", 90, 10010)); }
ENTRY e_built() { std::map<int, std::shared_ptr<coarse_channel>> m; double f = vf_real("fch1", 100, 10000), w = F[vf_pick("width", 0, 1)]; int n = vf_pick("channels", 1, 3); for (int k = 0; k < n; ++k) m[k] = std::make_shared<coarse_channel>(channel(plain({2, 4}, k), plain_mask({2, 4}), f + 4 * w * k, w)); scan s(m); found(s, f, w, 4, n, vf_real("frequency", 90, 10010)); }
ENTRY e_levels() { int w = vf_pick("width", 0, 1); Header h; h.nchans = 12; h.foff = F[w]; h.fch1 = vf_real("fch1", 100, 10000); file_of(h, false); scan s("file.h5", 3); double f = h.fch1 + h.foff * vf_real("away", 0.001, 11.999); vf_check(s.get_coarse_channel_with_frequency(h.fch1) == 0, "the first frequency is in the first channel"); int i = s.get_coarse_channel_with_frequency(f); observation_target t({s, s}); cadence c({observation_target(), t}); vf_check(t.get_coarse_channel_with_frequency(f) == i, "target"); vf_check(c.get_coarse_channel_with_frequency(f) == i, "cadence"); vf_cover("end"); }
ENTRY e_exact() { // where nothing is rounded, the edges too: a channel begins with its first frequency and ends before the next one's
    static const double W[] = {0.25, -0.5, 1, -0.0078125}; Header h; h.fch1 = 1024; h.foff = W[vf_pick("width", 0, 3)]; static const int64_t S[][2] = {{12, 4}, {8, 1}, {1 << 20, 1 << 18}, {10, 4}, {7, 3}}; int k = vf_pick("split", 0, 4); h.nchans = S[k][0]; int64_t per = S[k][1], n = h.nchans / per; file_of(h, false); scan s("file.h5", per);
    int64_t i = vf_pick("channel", -1, (int)n); double f = h.fch1 + h.foff * (double)(i * per), g = h.fch1 + h.foff * ((double)((i + 1) * per) - 0.0625); bool in = i >= 0 && i < n; int a = -7, b = -7; bool x = throws([&] { a = s.get_coarse_channel_with_frequency(f); }), y = throws([&] { b = s.get_coarse_channel_with_frequency(g); });
    vf_check(x == !in && y == !in, "exactly the frequencies of the band are accepted"); if (in && !x && !y) vf_check(a == i && b == i, "the channel contains the frequency"); vf_cover("end");
}
ENTRY e_telescope() { // a full band of 64 coarse channels of 2^20 fine channels, every channel looked up at its first, middle and last fine channel
    Header h; h.T = 16; h.nchans = 64 << 20; h.fch1 = 8421.38671875; h.foff = vf_pick("down", 0, 1) ? -2.7939677238464355e-06 : 2.7939677238464355e-06; file_of(h, false); scan s("file.h5", 1 << 20); int a = vf_pick("start", 0, 3) * 7; scan t = a ? s.slice_scan_channels(a, 30) : s; int n = a ? 30 : 64; bool right = true;
    for (int k = 0; k < n; ++k) for (double f : {0.5, 1.5, 524288.0, 1048575.5}) if (t.get_coarse_channel_with_frequency(h.fch1 + h.foff * ((double)(a + k) * (1 << 20) + f)) != k) right = false;
    vf_check(right, "the channel contains the frequency"); double out = vf_real("out", 0.4, 1e9); vf_check(throws([&] { t.get_coarse_channel_with_frequency(h.fch1 + h.foff * ((double)a * (1 << 20) - out)); }) && throws([&] { t.get_coarse_channel_with_frequency(h.fch1 + h.foff * ((double)(a + n) * (1 << 20) + out)); }), "exactly the frequencies of the band are accepted"); vf_cover("end");
}
