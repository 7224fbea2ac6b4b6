// F03: spectral kurtosis flags.
#include "flag.hpp"
#include <estimators/spectral_kurtosis.hpp>
struct Est { int64_t M, C; double N; float d; Input &in; // (M N d + 1)/(M - 1) * (M S2 / S1^2 - 1) of channel c
    float of(int64_t c) const { float s1 = 0, s2 = 0; for (int64_t t = 0; t < M; ++t) { float x = in.x.at({t, c}); s1 += x; s2 += x * x; } return ((float)(M * N) * d + 1) / (M - 1) * (M * (s2 / (s1 * s1)) - 1); } };
static const double W[][2] = {{-0.5e-6, 2}, {1e-6, 2}, {-0.5e-6, 3.4}, {2.5e-6, 2.15}, {-2.7939677238464355e-06, 18.253611008}, {0.1, 1}}; static const float D[] = {1, 2, 0.5f}; // channel widths in MHz and times, averaging to the nearest whole number of spectra
static const int64_t AVERAGED[] = {1, 2, 2, 5, 51, 100000};
static void flagged(const Shape &s, int layouts, float lo, float hi, float max) {
    int w = vf_pick("resolution", 0, 5), k = vf_pick("d", 0, 2), l = vf_pick("layout", 0, layouts - 1); Input in(s, l, DENSE, 0.25, max, W[w][0], W[w][1]); Est e{s[0], s[1], (double)AVERAGED[w], D[k], in};
    auto c = flag_spectral_kurtosis(in.cc, lo, hi, D[k]); ndarray f = flags_of(c, s); std::vector<float> sk; for (int64_t j = 0; j < s[1]; ++j) sk.push_back(e.of(j));
    for (int64_t i = 0; i < count(s); ++i) { float v = sk[i % s[1]]; uint8_t want = in.m.at(i) | (v < lo ? 2 : 0) | (v > hi ? 4 : 0); vf_check(get<uint8_t>(f, i) == want, "low and high kurtosis of each channel"); } vf_cover("end");
}
ENTRY e_two() { flagged({2, 1 + vf_pick("more channels", 0, 1)}, NLAYOUTS, vf_realf("low", 0, 4), vf_realf("high", 0, 8), 100); }
ENTRY e_three() { flagged({3, 2}, 1, vf_realf("low", 0, 4), vf_realf("high", 0, 8), 100); }
ENTRY e_five() { flagged({5, 1}, 1, 1.5f, 3, 100); }
ENTRY e_wide() { flagged({2, THOROUGH ? 9 : 5}, 2, vf_realf("low", 0, 4), vf_realf("high", 0, 8), 100); }
ENTRY e_defaults() { // documented defaults: below 0.05, above 50, d = 2
    Input in({3, 2}, DENSE, DENSE, 0.25, 1000, -0.5e-6, 13.3); Est e{3, 2, 7, 2, in}; auto c = flag_spectral_kurtosis(in.cc); ndarray f = flags_of(c, in.shape); for (int64_t i = 0; i < 6; ++i) { float v = e.of(i % 2); uint8_t want = in.m.at(i) | (v < 0.05f ? 2 : 0) | (v > 50 ? 4 : 0); vf_check(get<uint8_t>(f, i) == want, "low and high kurtosis of each channel"); } vf_cover("end");
}
ENTRY e_estimate() { // the estimator itself, for any number of averaged spectra
    static const Shape S[] = {{2, 2}, {3, 1}, {4, 1}, {2, 3}}; Shape s = S[vf_pick("shape", 0, 3)]; int k = vf_pick("d", 0, 2), channel_form = vf_pick("form", 0, 1), w = vf_pick("resolution", 0, channel_form ? 5 : 0); int32_t N = channel_form ? AVERAGED[w] : 1 << (vf_pick("N", 0, 5) * 5); Input in(s, vf_pick("layout", 0, NLAYOUTS - 1), DENSE, 0.25, 100, W[w][0], W[w][1]); Est e{s[0], s[1], (double)N, D[k], in};
    ndarray r = channel_form ? estimate_spectral_kurtosis(in.cc, D[k]) : estimate_spectral_kurtosis(in.x.v, N, s[0], D[k]); bool ok = r.shape() == Shape{s[1]}; vf_check(ok, "one estimate for every channel"); if (ok) for (int64_t j = 0; j < s[1]; ++j) { float want = e.of(j), err = get<float>(r, j) - want, tol = 1e-4f * N; vf_check(err <= tol && err >= -tol, "the estimate"); } in.unchanged(); vf_cover("end");
}
ENTRY e_long() { // more channels or spectra than 8-, 15- or 16-bit indices count
    static const Shape S[] = {{2, 70000}, {300, 260}, {70000, 2}}; Shape s = S[vf_pick("shape", 0, 2)]; int64_t T = s[0], n = s[1]; ndarray x = plain(s), m = plain_mask(s); auto p = x.data_ptr<float>(); auto q = m.data_ptr<uint8_t>(); for (int64_t i = 0; i < T * n; ++i) { p[i] = 1 + (i / n * 7 + i % n) % 5 + (i % n % 3 == 1 && i / n % 2 ? 40 : 0); q[i] = i * 8 % 251; } q[T * n - 2] = vf_u8("flags"); std::vector<uint8_t> was(q, q + T * n);
    auto c = flag_spectral_kurtosis(channel(x, m, 1000, -0.5e-6, 2), 0.55f, 1.6f, 1); ndarray f = flags_of(c, s); auto in = places(f, s); auto g = f.data_ptr<uint8_t>();
    for (int64_t ch = 0; ch < n; ++ch) { double s1 = 0, s2 = 0; for (int64_t t = 0; t < T; ++t) { double v = p[t * n + ch]; s1 += v; s2 += v * v; } double sk = (T + 1.0) / (T - 1) * (T * (s2 / (s1 * s1)) - 1); if ((sk > 0.5499 && sk < 0.5501) || (sk > 1.599 && sk < 1.601)) continue; for (int64_t t = 0; t < T; ++t) vf_check(g[in[t * n + ch]] == (was[t * n + ch] | (sk < 0.55 ? 2 : 0) | (sk > 1.6 ? 4 : 0)), "low and high kurtosis of each channel"); }
    vf_cover("end");
}
ENTRY e_long_estimate() { // the estimate of a channel of many spectra or channels
    static const Shape S[] = {{2, 70000}, {300, 260}, {40000, 2}, {70000, 2}}; Shape s = S[vf_pick("shape", 0, 3)]; int64_t T = s[0], n = s[1]; ndarray x = plain(s); auto p = x.data_ptr<float>(); for (int64_t i = 0; i < T * n; ++i) p[i] = 1 + (i / n * 7 + i % n) % 5 + (i % n % 3 == 1 && i / n % 2 ? 40 : 0); p[T * n - 1] = vf_realf("x", 1, 5); auto c = channel(x, plain_mask(s), 1000, -0.5e-6, 2); ndarray r = estimate_spectral_kurtosis(c, 1); bool ok = r.shape() == Shape{n}; vf_check(ok, "one estimate for every channel"); if (!ok) return; auto at = places(r, {n}); auto g = r.data_ptr<float>();
    for (int64_t ch = 0; ch < n; ++ch) { double s1 = 0, s2 = 0; for (int64_t t = 0; t < T; ++t) { double v = p[t * n + ch]; s1 += v; s2 += v * v; } double want = (T + 1.0) / (T - 1) * (T * (s2 / (s1 * s1)) - 1); vf_close(g[at[ch]], want, 1e-2, "the estimate"); }
    vf_cover("end");
}
