// E01: noise estimates.
#include "flag.hpp"
#include <estimators/noise_estimate.hpp>
static noise_power_estimate_options options(bool masked, bool mad = false) { noise_power_estimate_options o; o.estimator_method = mad ? noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : noise_power_estimator::STDDEV; o.masked_estimate = masked; return o; }
static void summarises(noise_stats n, const Arr<float> &x, const std::vector<int> &flagged) {
    double s = 0, q = 0; int64_t k = 0; for (int64_t i = 0; i < x.n(); ++i) if (!flagged[i]) { double v = x.at(i); s += v; q += v * v; ++k; } double m = s / k, v = q / k - m * m;
    vf_close(n.noise_floor(), m, 1e-3, "the mean of the samples"); double d = n.noise_power(); vf_check(d >= 0, "the deviation is not negative"); vf_close(d * d, v < 0 ? 0 : v, 1e-1, "the deviation of the samples"); vf_close((double)n.noise_amplitude() * n.noise_amplitude(), d, 1e-2, "its root");
}
static std::vector<int> pattern(Arr<uint8_t> &m, int64_t p) { std::vector<int> f; for (int64_t i = 0; i < m.n(); ++i) { f.push_back(p >> i & 1); if (f[i]) vf_assume(m.at(i) != 0); else vf_assume(m.at(i) == 0); } return f; }
static void masked(const Shape &s, int layouts, int64_t p) {
    int l = vf_pick("layout", 0, layouts - 1); Input in(s, l, (l * 2 + 1) % NLAYOUTS, -20, 20); auto f = pattern(in.m, p); bool all = true; for (int x : f) all = all && x; noise_stats n; bool threw = throws([&] { n = estimate_noise_power(in.cc, options(true)); }); vf_check(threw == all, "a fully flagged channel has no masked estimate"); in.unchanged(); if (threw || all) { vf_cover("all"); return; } summarises(n, in.x, f); vf_cover("end");
}
ENTRY e_masked() { static const Shape S[] = {{2, 2}, {1, 4}, {4, 1}}; masked(S[vf_pick("shape", 0, 2)], NLAYOUTS, vf_pick("flagged", 0, 15)); }
ENTRY e_larger() { static const int P[] = {0, 1, 0x18, 0x155, 0xfe, 0x1ff}; masked({3, 3}, 2, P[vf_pick("flagged", 0, 5)]); }
ENTRY e_unmasked() { static const Shape S[] = {{2, 2}, {1, 4}, {2, 1}, {4, 2}}; int l = vf_pick("layout", 0, NLAYOUTS - 1); Input in(S[vf_pick("shape", 0, 3)], l, DENSE, -20, 20); summarises(vf_pick("form", 0, 1) ? estimate_noise_power(in.x.v, options(false)) : estimate_noise_power(in.cc, options(false)), in.x, std::vector<int>(in.x.n(), 0)); in.unchanged(); vf_cover("end"); }
ENTRY e_kept() { // estimating leaves the channel as it was, and the estimate set on a channel is the one read
    Input in({2, 3}, DENSE, OFFSET, -20, 20); pattern(in.m, 5); auto n = estimate_noise_power(in.cc, options(true)); in.cc.set_noise_estimate(n); noise_stats r = in.cc.noise_estimate(); vf_check(r.noise_floor() == n.noise_floor() && r.noise_power() == n.noise_power(), "the estimate is kept"); ndarray d = in.cc.data(), f = in.cc.mask(); for (int64_t i = 0; i < 6; ++i) vf_check(get<float>(d, i) == in.x.at(i) && get<uint8_t>(f, i) == in.m.at(i), "data and flags are kept"); vf_cover("end");
}
ENTRY e_unset() { Input in({1, 2}, DENSE, DENSE); vf_check(throws([&] { in.cc.noise_estimate(); }), "a channel without an estimate has none"); bool masked = vf_pick("masked", 0, 1); vf_check(throws([&] { auto n = estimate_noise_power(in.cc, options(masked, true)); n.noise_floor(); }), "estimators that do not exist are rejected"); vf_check(throws([&] { auto n = estimate_noise_power(in.x.v, options(masked, true)); n.noise_floor(); }), "and on arrays"); vf_cover("end"); }
ENTRY e_long() { // more samples than 8-, 15- or 16-bit indices count
    static const Shape S[] = {{2, 70000}, {300, 260}, {70000, 2}}; Shape s = S[vf_pick("shape", 0, 2)]; bool use = vf_pick("masked", 0, 1); int64_t n = count(s), k = 0; float x0 = vf_realf("x", -20, 20); ndarray x = plain(s), m = plain_mask(s); auto p = x.data_ptr<float>(); auto q = m.data_ptr<uint8_t>(); double sum = 0, sq = 0; for (int64_t i = 0; i < n; ++i) { p[i] = 4 + i * 7 % 13 + (i % 100 == 99 ? 50 : 0) + (i > 65535 ? 1 : 0); if (i == n - 8) p[i] = x0; q[i] = i % 100 == 99 || (i > 65535 && i % 3 == 0) ? 1 << i % 8 : 0; if (use && q[i]) continue; ++k; sum += p[i]; sq += (double)p[i] * p[i]; }
    auto e = estimate_noise_power(channel(x, m), options(use)); double mean = sum / k, var = sq / k - mean * mean, d = e.noise_power(); vf_close(e.noise_floor(), mean, 1e-2, "the mean of the samples"); vf_close(d * d, var, 1e-1, "the deviation of the samples"); vf_cover("end");
}
ENTRY e_whole_counts() { // numbers of unflagged samples that 8 or 16 bits would count as none
    static const int64_t N[] = {256, 512, 32768, 65536, 131072}; int64_t n = N[vf_pick("unflagged", 0, 4)]; Shape s{n / 64 + 1, 64}; ndarray x = plain(s), m = plain_mask(s); auto p = x.data_ptr<float>(); auto q = m.data_ptr<uint8_t>(); float x0 = vf_realf("x", -20, 20); uint8_t f0 = vf_u8("flags"); vf_assume(f0 != 0); double sum = 0, sq = 0; for (int64_t i = 0, k = 0; i < count(s); ++i) { p[i] = i == 7 ? x0 : 4 + i * 7 % 13; q[i] = i % (n / 64 + 1) == 3 ? f0 : 0; if (q[i]) continue; ++k; sum += p[i]; sq += (double)p[i] * p[i]; }
    noise_stats e; bool threw = throws([&] { e = estimate_noise_power(channel(x, m), options(true)); }); vf_check(!threw, "a channel with unflagged samples has an estimate"); if (threw) return; double mean = sum / n, var = sq / n - mean * mean, d = e.noise_power(); vf_close(e.noise_floor(), mean, 1e-2, "the mean of the samples"); vf_close(d * d, var, 1e-1, "the deviation of the samples"); vf_cover("end");
}
