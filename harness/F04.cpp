// F04: magnitude and sigma-clip flags.
#include "flag.hpp"
#include <cmath>
static void above(const Shape &s, int layout, bool array_form) {
    Input in(s, layout, DENSE, -100, 100); float t = vf_realf("level", -100, 100); ndarray f = array_form ? flag_magnitude(in.x.v, t) : plain(s); coarse_channel c = in.cc; if (!array_form) { c = flag_magnitude(in.cc, t); f = flags_of(c, s); }
    bool ok = f.shape() == s; vf_check(ok, "a flag for every sample"); if (!ok) return;
    for (int64_t i = 0; i < count(s); ++i) { uint8_t was = array_form ? 0 : in.m.at(i), want = was | (in.x.at(i) > t ? 16 : 0); vf_check(get<uint8_t>(f, i) == want, "exactly the samples above the level"); } vf_cover("end");
}
ENTRY e_level() { static const Shape S[] = {{1, 1}, {2, 3}, {3, 2}, {1, 9}, {4, 4}}; above(S[vf_pick("shape", 0, 4)], vf_pick("layout", 0, NLAYOUTS - 1), vf_pick("form", 0, 1)); }
ENTRY e_default_level() { // without a level, it is ten deviations above the mean: of n samples one can be that far off when n > 101
    Shape s{11, 11}; int64_t n = 121, at = vf_pick("where", 0, 3) * 40; float x = vf_realf("peak", -1000, 1000); float spread = vf_realf("spread", 0, 4); ndarray d = plain(s); auto p = d.data_ptr<float>(); for (int64_t i = 0; i < n; ++i) p[i] = i % 2 ? spread : 0; p[at] = x;
    double sum = 60 * spread + (at % 2 ? 0 : x), sq = 60 * spread * spread + x * x; double mean = sum / n, var = sq / n - mean * mean; vf_assume(var > 1e-3);
    ndarray m = plain_mask(s); for (int64_t i = 1; i < n; i += 6) m.data_ptr<uint8_t>()[i] = 8; auto c = flag_magnitude(channel(d, m)); ndarray f = flags_of(c, s); double off = x - mean; bool high = off > 0 && off * off > 100 * 1.01 * var, low = off <= 0 || off * off < 100 * 0.99 * var * (n - 1) / n; uint8_t had = at % 6 == 1 ? 8 : 0, got = get<uint8_t>(f, at) - had; vf_check(got == 0 || got == 16, "only its own flag"); if (high) vf_check(got == 16, "ten deviations above the mean is flagged"); if (low) vf_check(got == 0, "less is not");
    bool none = true; for (int64_t i = 0; i < n; ++i) if (i != at && get<uint8_t>(f, i) != (i % 6 == 1 ? 8 : 0)) none = false; vf_check(none, "the others are not flagged"); vf_cover("end");
}
// sigma clipping: flags of each iteration come from the mean and deviation of the samples the one before left
static void clipped(const std::vector<float> &x, const Shape &s, int iterations, float low, float high, bool array_form, double margin = 1e-2) {
    int64_t n = x.size(); ndarray d = plain(s); for (int64_t i = 0; i < n; ++i) d.data_ptr<float>()[i] = x[i]; std::vector<int> out(n, 0);
    for (int it = 0; it < iterations; ++it) {
        double sum = 0, sq = 0; int64_t k = 0; for (int64_t i = 0; i < n; ++i) if (!out[i]) { sum += x[i]; sq += (double)x[i] * x[i]; ++k; } double mean = sum / k, var = sq / k - mean * mean; vf_assume(var > margin);
        for (int64_t i = 0; i < n; ++i) { double o = x[i] - mean, l = (double)low * low * var, h = (double)high * high * var; bool below = (o < 0) & (o * o > l), above = (o > 0) & (o * o > h); double e = o * o - l, g = o * o - h; vf_assume(((e > margin) | (e < -margin)) & ((g > margin) | (g < -margin))); if (below | above) out[i] = 1; else out[i] = 0; }
        int64_t left = 0; for (int v : out) left += !v; vf_assume(left > 0);
    }
    ndarray f = d; coarse_channel c = channel(d, plain_mask(s, 64)); if (array_form) f = flag_sigmaclip(d, iterations, low, high); else { c = flag_sigmaclip(c, iterations, low, high); f = flags_of(c, s); } bool ok = f.shape() == s && f.dtype() == dt<uint8_t>(); vf_check(ok, "a flag for every sample"); if (!ok) return;
    for (int64_t i = 0; i < n; ++i) vf_check(get<uint8_t>(f, i) == (array_form ? 0 : 64) + (out[i] ? 32 : 0), out[i] ? "samples outside the range are flagged" : "samples inside are not"); vf_cover("end");
}
static const float L[][2] = {{1, 1}, {1.5f, 1}, {1, 1.5f}, {2, 2}};
static std::vector<float> samples(int64_t n) { static const float V[][8] = {{1, 2, 3, 4, 2.5f, 1.5f, 9, -7}, {5, 5.5f, 6, 5.25f, 5, 4.5f, 40, 5}, {-1, -2, -1.5f, -2.5f, 10, -1, -30, -2}}; int v = vf_pick("samples", 0, 2); std::vector<float> x(V[v], V[v] + n); x[vf_pick("where", 0, THOROUGH ? 2 : 1) * n / 3] = vf_realf("x", -50, 50); return x; }
ENTRY e_one_iteration() { int k = vf_pick("thresholds", 0, 3); clipped(samples(6), {2, 3}, 1, L[k][0], L[k][1], k % 2); }
ENTRY e_iterations() { int k = vf_pick("thresholds", 0, THOROUGH ? 3 : 1) * (THOROUGH ? 1 : 3), it = THOROUGH ? vf_pick("iterations", 0, 5) : 2 * vf_pick("iterations", 0, 1); clipped(samples(8), {2, 4}, it, L[k][0], L[k][1], (k + it / 2) % 2); }
ENTRY e_cascade() { std::vector<float> x{1, 2, 3, 4, 2.5f, 1.5f, 30, 300, 3000}; x[8] = vf_realf("x", -5000, 5000); clipped(x, {1, 9}, vf_pick("iterations", 1, 4), 2, 2, false); }
ENTRY e_scaled() { float u = vf_realf("scale", 0.5, 20), z = vf_realf("offset", -100, 100); static const float V[] = {1, 2, 3, 4, 2.5f, 30}; std::vector<float> x; for (float v : V) x.push_back(v * u + z); clipped(x, {1, 6}, 1, 1, 2, true); }
ENTRY e_faint() { float u = 0.001f; std::vector<float> x{1 * u, 2 * u, 3 * u, 4 * u, 2.5f * u, 1.5f * u, 6 * u, 9 * u, 12 * u}; x[8] = vf_realf("x", -0.05, 0.05); clipped(x, {1, 9}, 1 + 2 * vf_pick("iterations", 0, 1), 1.5f, 1.5f, false, 1e-4 * u * u); }
ENTRY e_long() { // more samples than 8-, 15- or 16-bit indices count
    static const Shape S[] = {{2, 70000}, {300, 260}, {70000, 2}}; Shape s = S[vf_pick("shape", 0, 2)]; int how = vf_pick("how", 0, 2); int64_t n = count(s), high = 0; ndarray x = plain(s), m = plain_mask(s); auto p = x.data_ptr<float>(); auto q = m.data_ptr<uint8_t>(); double sum = 0, sq = 0; for (int64_t i = 0; i < n; ++i) { p[i] = i * 7 % 13 + (i % 1000 == 999 ? 200 : 0) + (i > n - 3 ? 300 : 0); q[i] = i % 5 == 3 ? 64 : 0; sum += p[i]; sq += (double)p[i] * p[i]; } if (how == 0) p[n - 8] = vf_realf("x", -100, 100); uint8_t had = q[n - 9] = vf_u8("flags") & 0xcf;
    double mean = sum / n, dev = std::sqrt(sq / n - mean * mean), t = how == 0 ? 9.5 : mean + (how == 1 ? 10 : 3) * dev; auto c = how == 0 ? flag_magnitude(channel(x, m), 9.5f) : how == 1 ? flag_magnitude(channel(x, m)) : flag_sigmaclip(channel(x, m), 1, 50.f, 3.f); ndarray f = flags_of(c, s); auto in = places(f, s); auto g = f.data_ptr<uint8_t>(); uint8_t own = how == 2 ? 32 : 16;
    for (int64_t i = 0; i < n; ++i) { uint8_t want = (i == n - 9 ? had : i % 5 == 3 ? 64 : 0) + (p[i] > t ? own : 0); vf_check(g[in[i]] == want, "exactly the samples above the level"); high += i != n - 8 && p[i] > t; } vf_check(high > 0 && high < n, "some are"); vf_cover("end");
}
