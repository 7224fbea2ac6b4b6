// D02: integrated power along drift tracks.
#include "cc.hpp"
#include <drift_search/integrate_drifts.hpp>
#include <cmath>
static void tracks(const Shape &sh, const integrate_drifts_options &o, int layout, int mlayout) {
    auto a = make<float>("a", sh, layout); if (!view_ok(a)) return;
    ndarray mask = mlayout ? ndarray(cut(plain_mask({sh[0] + 1, sh[1] + 2}), 0, 1, sh[0] + 1)) : plain_mask(sh);
    if (mlayout) mask = ndarray(cut(mask, 1, 1, sh[1] + 1));
    auto cc = bliss::integrate_drifts(channel(a.v, mask), o); auto plane = cc.integrated_drift_plane(); auto d = plane.drift_rate_info(); ndarray p = plane.integrated_drift_plane();
    int64_t T = sh[0], n = sh[1];
    vf_check(same(p.shape(), {(int64_t)d.size(), n}), "shape of the plane"); if (!same(p.shape(), {(int64_t)d.size(), n})) return;
    for (int64_t i = 0; i < (int64_t)d.size(); ++i) {
        int64_t B = o.desmear ? d[i].desmeared_bins : 1, dir = d[i].drift_rate_slope >= 0 ? 1 : -1;
        for (int64_t c = 0; c < n; ++c) {
            double sum = 0; bool inside = true;
            for (int64_t t = 0; t < T; ++t) for (int64_t k = 0; k < B; ++k) {
                int64_t f = c + (int64_t)std::round(d[i].drift_rate_slope * t) + dir * k;
                if (f < 0 || f >= n) inside = false; else sum += a.at(Shape{t, f});
            }
            if (inside) vf_close(get<float>(p, i * n + c), sum / (T * B), 1e-3, "mean power along the track");
        }
    }
    a.unchanged("spectrogram unchanged"); vf_cover("end");
}
ENTRY e_ranges() { // positive and negative ranges, also beyond the band
    static const int64_t R[][3] = {{-3, 4, 1}, {-9, -4, 1}, {5, 10, 1}, {-12, 13, 4}, {0, 1, 1}};
    auto r = R[vf_pick("range", 0, 4)]; int64_t T = vf_pick("spectra", 1, THOROUGH ? 5 : 4), n = vf_pick("channels", THOROUGH ? 2 : 4, THOROUGH ? 8 : 6);
    tracks({T, n}, rates(r[0], r[1], r[2], vf_pick("desmear", 0, 1)), DENSE, 0);
}
ENTRY e_smeared() { // several channels per spectrum
    int64_t T = vf_pick("spectra", 2, 3), n = vf_pick("channels", 7, THOROUGH ? 12 : 9), lo = vf_pick("low", 0, 1) ? 2 : -7;
    tracks({T, n}, rates(lo, lo + 6, 1, true), DENSE, 0);
}
ENTRY e_layouts() { tracks({3, 4}, rates(-2, 3, 1, vf_pick("desmear", 0, 1)), vf_pick("layout", 0, NLAYOUTS - 1), vf_pick("mask", 0, 1)); }
ENTRY e_long() { // a full observation
    int64_t lo = vf_pick("low", 0, 2); static const int64_t L[] = {-20, -3, 14};
    tracks({16, 24}, rates(L[lo], L[lo] + 6, 1, vf_pick("desmear", 0, 1)), DENSE, 0);
}
ENTRY e_wide_band() { // more channels, or spectra, than 8-, 15- or 16-bit indices count
    int form = vf_pick("form", 0, 4); SPARSE = form == 1 || form == 4 ? 1021 : 16384; Shape sh = form == 4 ? Shape{2, 320} : form == 1 ? Shape{300, 24} : Shape{3, form ? 40300 : 70000}; auto o = form == 4 ? rates(-145, 145, 1, false) : form > 1 ? rates(form == 2 ? -40000 : 40000, form == 2 ? -39999 : 40001, 1, false) : rates(form ? -4 : -2, form ? 5 : 3, form ? 4 : 2, true); int64_t T = sh[0], n = sh[1]; auto a = make<float>("a", sh, DENSE, 0, 64);
    auto cc = bliss::integrate_drifts(channel(a.v, plain_mask(sh)), o); auto plane = cc.integrated_drift_plane(); auto d = plane.drift_rate_info(); ndarray p = plane.integrated_drift_plane(); bool shape = same(p.shape(), {(int64_t)d.size(), n}) && !d.empty(); vf_check(shape, "shape of the plane"); if (!shape) return; auto in = places(p, p.shape());
    for (int64_t i = 0; i < (int64_t)d.size(); ++i) { int64_t B = d[i].desmeared_bins, dir = d[i].drift_rate_slope >= 0 ? 1 : -1; std::vector<int64_t> by; for (int64_t t = 0; t < T; ++t) by.push_back((int64_t)std::round(d[i].drift_rate_slope * t));
        for (int64_t c = 0; c < n; ++c) { double sum = 0; bool inside = true; for (int64_t t = 0; t < T; ++t) for (int64_t k = 0; k < B; ++k) { int64_t f = c + by[t] + dir * k; if (f < 0 || f >= n) inside = false; else sum += a.init[t * n + f]; } if (inside) vf_close(p.data_ptr<float>()[in[i * n + c]], sum / (T * B), 1e-3, "mean power along the track"); } }
    vf_cover("end");
}
