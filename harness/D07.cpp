// D07: physical units of hits.
#include "cc.hpp"
#include <drift_search/hit_search.hpp>
#include <drift_search/protohit_search.hpp>
#include <drift_search/hit_search_options.hpp>
#include <cmath>
static void units(Shape sh, std::vector<int64_t> cells, hit_search_methods m, bool symbolic, int d, double level = 0, bool any_floor = true, int steps = 16) {
    double fch1 = symbolic ? vf_real("fch1", -2000, 12000) : 8421.386717353016, foff = symbolic ? vf_real("foff", -2, 2) : -2.7939677238464355e-06, tsamp = symbolic ? vf_real("tsamp", 0.1, 20) : 18.253611008, tstart = symbolic ? vf_real("tstart", 50000, 60000) : 57650.78209490741;
    int64_t number = vf_pick("number", 0, 1) ? 37 : 0, n = sh[1], T = steps; ndarray a = plain(sh, level); for (auto c : cells) a.data_ptr<float>()[c] = vf_realf("x", 1, 100);
    auto cc = channel(plain({T, n}), plain_mask({T, n}), fch1, foff, tsamp, tstart, number);
    auto plane = drift_plane(a, T, 1); cc.set_integrated_drift_plane(plane); float floor = any_floor ? vf_realf("floor", -2, 2) : 0.5f; cc.set_noise_estimate(noise(floor, 4));
    hit_search_options o; o.method = m; o.snr_threshold = 10; o.neighbor_l1_dist = d;
    auto hits = hit_search(cc, o); auto pro = protohit_search(plane, noise(floor, 4), o); auto table = plane.drift_rate_info();
    vf_check(hits.size() == pro.size(), "one hit for every protohit"); std::vector<char> used(pro.size(), 0);
    for (auto &h : hits) {
        size_t k = 0; while (k < pro.size() && (used[k] || pro[k].index_max.drift_index != h.rate_index || pro[k].index_max.frequency_channel != h.start_freq_index)) ++k;
        vf_check(k < pro.size(), "the position of the hit is that of a protohit"); if (k == pro.size()) return; used[k] = 1; auto &p = pro[k];
        auto near = [&](double x, double want, double tol, const char *l) { double e = x - want; vf_check(e <= tol && e >= -tol, l); };
        near(h.start_freq_MHz, fch1 + foff * p.index_center.frequency_channel, 1e-7, "start frequency"); near(h.drift_rate_Hz_per_sec, table[p.index_max.drift_index].drift_rate_Hz_per_sec, 1e-9, "drift rate");
        near(h.power, p.max_integration - floor, 1e-3, "power above the noise floor"); near(h.snr, (p.max_integration - floor) / p.desmeared_noise, 1e-3, "signal to noise");
        double level = (p.index_max.drift_index % 2 ? 0.5 : 1) * (T == 4 ? 2 : 1); near(p.desmeared_noise, level, 1e-5, "noise of the drift, integrated over the spectra and the smearing width");
        vf_check(h.binwidth == p.binwidth, "width in channels"); near(h.bandwidth, p.binwidth * std::fabs(foff) * 1e6, 1e-2, "bandwidth");
        near(h.start_time_sec, tstart * 86400, 1e-3, "start time"); near(h.duration_sec, tsamp * T, 1e-6, "duration"); vf_check(h.time_span_steps == T, "spectra spanned");
        vf_check(h.coarse_channel_number == number, "coarse channel"); vf_check(h.rfi_counts == p.rfi_counts, "flag counts");
    }
    vf_cover("end");
}
ENTRY e_components() { static const int64_t C[][3] = {{0, 1, 2}, {7, 8, 15}, {3, 12, 17}}; auto c = C[vf_pick("cells", 0, 2)]; units({3, 6}, {c[0], c[1], c[2]}, hit_search_methods::CONNECTED_COMPONENTS, true, vf_pick("distance", 1, 2)); }
ENTRY e_components_real() { int64_t c = vf_pick("cell", 0, 16); units({3, 6}, {c, c + 1}, hit_search_methods::CONNECTED_COMPONENTS, false, 1, 0, true, vf_pick("few", 0, 1) ? 4 : 16); }
ENTRY e_maxima() { units({3, 6}, {8, 9, 10}, hit_search_methods::LOCAL_MAXIMA, true, 1, -50); }
ENTRY e_no_noise() { // a channel without noise estimate or drift plane
    int64_t w = vf_pick("missing", 0, 1); auto cc = channel(plain({2, 4}), plain_mask({2, 4})); if (w) cc.set_noise_estimate(noise(0, 1)); else cc.set_integrated_drift_plane(drift_plane(plain({2, 4}), 2, 0));
    vf_check(throws([&] { auto h = hit_search(cc, hit_search_options()); (void)h; }), "searching without noise or drifts is rejected"); vf_cover("end");
}
ENTRY e_far() { // indices beyond 8-, 15- or 16-bit numbers
    bool rows = vf_pick("rows", 0, 1), maxima = !rows && vf_pick("maxima", 0, 1); if (rows) units({320, 5}, {301 * 5 + 2, 9 * 5 + 1}, hit_search_methods::CONNECTED_COMPONENTS, false, 1, 0, false); else units({3, 70000}, {70000 + 66001, 70000 + 41000, 70000 + 300}, maxima ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS, false, 1, -50, false);
}
