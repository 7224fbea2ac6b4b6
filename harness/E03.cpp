// E03: the coarse channel response folds the energy of every contributing channel and is relative to its largest value.
// The Fourier transform is the library's: here any power spectrum.
#include "arr.hpp"
#include "fft.hpp"
#include <preprocess/passband_static_equalize.hpp>
using namespace bliss;
// energy at fine channel k of a coarse channel: every frequency a whole number of coarse channels away, in the coarse channels wholly inside the band
static void folded(int fine, int nc, int taps) {
    fft::only = vf_pick("unknown frequency", 0, fine * nc / 2); ndarray h = gen_coarse_channel_response(fine, nc, taps); int64_t n = (int64_t)fine * nc;
    bool shape = same(h.shape(), {fine}) && h.dtype() == dt<float>(); vf_check(shape, "one value for every fine channel"); if (!shape) return;
    bool once = fft::done == 1 && (int64_t)fft::seen.size() == n; vf_check(once, "one transform at the full resolution"); if (!once) return;
    ndarray f = firdes(taps * nc, 1.0f / nc, "hamming"); bool filter = f.numel() == taps * nc; vf_check(filter, "the filter has the taps asked for"); if (!filter) return;
    for (int64_t i = 0; i < n; ++i) vf_check(fft::seen[i] == (i < taps * nc ? get<float>(f, i) : 0.f), "of the filter's taps followed by zeros");
    std::vector<double> s; for (int k = 0; k < fine; ++k) { double e = 0; for (int64_t g = k - fine / 2 - n; g <= n; g += fine) { int64_t lo = -(n / 2); int64_t first = g - (k - fine / 2); /* centre of the coarse channel */ if (first - fine / 2 < lo || first + fine / 2 > lo + n) continue; int64_t a = g < 0 ? -g : g; e += (double)fft::re[a] * fft::re[a] + (double)fft::im[a] * fft::im[a]; } s.push_back(e); }
    double m = 0; for (auto e : s) m = e > m ? e : m;
    bool one = false; for (int k = 0; k < fine; ++k) { float v = get<float>(h, k); vf_close((double)v * m, s[k], 1e-3, "energy folded into the fine channel, relative to the largest"); vf_check(v >= 0 && v <= 1.0001f, "between nothing and one"); one |= v >= 0.9999f; }
    vf_check(one, "the largest is one"); vf_check(fft::plans == 0 && fft::blocks == 0, "plans and buffers are given back"); vf_cover("end");
}
ENTRY e_even() { static const int S[][3] = {{2, 2, 1}, {4, 2, 2}, {2, 4, 1}, {4, 4, 1}, {2, 6, 2}, {8, 4, 3}}; auto s = S[vf_pick("size", 0, 5)]; folded(s[0], s[1], s[2]); }
ENTRY e_odd() { static const int S[][3] = {{2, 3, 1}, {4, 3, 2}, {4, 1, 2}, {2, 5, 2}, {6, 5, 3}}; auto s = S[vf_pick("size", 0, 4)]; folded(s[0], s[1], s[2]); }
ENTRY e_too_many_taps() { vf_check(throws([] { gen_coarse_channel_response(2, 4, 3); }), "more taps than the band has channels are refused"); vf_cover("end"); }
// the filter itself: a windowed sinc of the asked width (concrete, the cosines being the library's)
ENTRY e_filter() {
    int n = vf_pick("taps", 2, 24), c = vf_pick("channels", 2, 6); ndarray f = firdes(n, 1.0f / c, "hamming"); bool shape = same(f.shape(), {n}) && f.dtype() == dt<float>(); vf_check(shape, "as many taps as asked for"); if (!shape) return;
    for (int i = 0; i < n; ++i) { double x = M_PI * (i - (n - 1) / 2.0) / c, w = 0.54 - 0.46 * std::cos(2 * M_PI * i / (n - 1)), want = w * (x == 0 ? 1 : std::sin(x) / x), got = get<float>(f, i); vf_check(got - want < 1e-4 && want - got < 1e-4, "tap of the windowed filter"); }
    vf_cover("end");
}
