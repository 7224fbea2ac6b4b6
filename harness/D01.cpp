// D01: the table of drift rates.
#include "cc.hpp"
#include <drift_search/integrate_drifts.hpp>
#include <cmath>
static void table(bool symbolic) {
    static const int64_t TS[] = {1, 2, 3, 4, 6, 9, 16};
    static const int64_t R[][3] = {{-3, 4, 1}, {0, 3, 1}, {-4, 0, 1}, {-6, 6, 3}, {2, 9, 2}, {5, 6, 1}, {-70, -60, 5}, {30, 40, 4}, {-1, 1, 1}, {-70000, -69990, 5}, {40000, 40004, 2}, {-200, 200, 1}};
    int64_t T = TS[vf_pick("spectra", 0, 6)], r = vf_pick("range", 0, 11); bool desmear = vf_pick("desmear", 0, 1);
    double foff = symbolic ? vf_real("foff", -2, 2) : -2.7939677238464355e-06, tsamp = symbolic ? vf_real("tsamp", 0.5, 20) : 18.253611008; if (symbolic) vf_assume(foff != 0);
    int64_t low = R[r][0], high = R[r][1], step = R[r][2];
    Shape s{T, 4}; auto cc = bliss::integrate_drifts(channel(plain(s, 1), plain_mask(s), 1000, foff, tsamp), rates(low, high, step, desmear));
    auto plane = cc.integrated_drift_plane(); auto d = plane.drift_rate_info(); int64_t n = d.size();
    vf_check(plane.integration_steps() == T, "number of integrated spectra");
    vf_check(n >= (high - low) / step && n <= (high - low + step - 1) / step, "entries cover the half-open range");
    vf_check(same(plane.integrated_drift_plane().shape(), {n, 4}), "a row of the plane for every entry");
    for (int64_t i = 0; i < n; ++i) {
        int64_t span = low + i * step; double slope = T > 1 ? (double)span / (T - 1) : 0;
        vf_check(d[i].index_in_plane == i, "entries in order of their row"); vf_check(d[i].drift_channels_span == span, "span of an entry");
        vf_close(d[i].drift_rate_slope, slope, (symbolic ? 1e-5 : 1e-7) * (1 + std::fabs(slope)), "slope of an entry");
        double a = std::fabs(slope), near = a - std::floor(a) - 0.5; int64_t w = desmear ? (int64_t)std::round(a) : 1; if (w < 1) w = 1;
        vf_check(d[i].desmeared_bins == w || (std::fabs(near) < 1e-4 && desmear && iabs(d[i].desmeared_bins - w) <= 1), "smearing width of an entry");
        if (!symbolic) vf_close(d[i].drift_rate_Hz_per_sec, d[i].drift_rate_slope * foff * 1e6 / tsamp, 1e-12 * (1 + std::fabs(slope)), "rate of an entry");
        else { double e = d[i].drift_rate_Hz_per_sec - d[i].drift_rate_slope * foff * 1e6 / tsamp; vf_check(e <= 1e-3 && e >= -1e-3, "rate of an entry"); }
        if (i) vf_check(d[i].drift_channels_span > d[i - 1].drift_channels_span, "increasing entries");
    }
    vf_cover("end");
}
ENTRY e_units() { table(true); }
ENTRY e_real_channel() { table(false); }
ENTRY e_rejects() { // an empty range or a step that never ends has no table
    static const int64_t R[][3] = {{3, 3, 1}, {4, 3, 1}, {0, 4, 0}, {0, 4, -1}, {64, -64, 1}}; int64_t r = vf_pick("range", 0, 4);
    Shape s{3, 4}; vf_check(throws([&] { auto c = bliss::integrate_drifts(channel(plain(s), plain_mask(s)), rates(R[r][0], R[r][1], R[r][2])); (void)c; }), "ranges without entries are rejected");
    vf_cover("end");
}
