// D03: flagged samples counted along drift tracks.
#include "cc.hpp"
#include <drift_search/integrate_drifts.hpp>
#include <cmath>
static int64_t sat(int64_t x) { return x > 255 ? 255 : x; }
static void counts(const Shape &sh, const integrate_drifts_options &o, ndarray mask) {
    auto cc = bliss::integrate_drifts(channel(plain(sh, 1), mask), o); auto plane = cc.integrated_drift_plane(); auto d = plane.drift_rate_info(); auto f = plane.integrated_rfi();
    int64_t T = sh[0], n = sh[1]; struct { ndarray *a; uint8_t flag; const char *label; } K[] = {{&f.low_spectral_kurtosis, 2, "low spectral kurtosis count"}, {&f.high_spectral_kurtosis, 4, "high spectral kurtosis count"}, {&f.filter_rolloff, 1, "filter rolloff count"}};
    for (auto &k : K) {
        vf_check(same(k.a->shape(), {(int64_t)d.size(), n}), "shape of the counts"); if (!same(k.a->shape(), {(int64_t)d.size(), n})) return;
        for (int64_t i = 0; i < (int64_t)d.size(); ++i) {
            int64_t B = o.desmear ? d[i].desmeared_bins : 1, dir = d[i].drift_rate_slope >= 0 ? 1 : -1;
            for (int64_t c = 0; c < n; ++c) {
                int64_t m = 0; bool inside = true;
                for (int64_t t = 0; t < T; ++t) for (int64_t b = 0; b < B; ++b) {
                    int64_t x = c + (int64_t)std::round(d[i].drift_rate_slope * t) + dir * b;
                    if (x < 0 || x >= n) inside = false; else if (get<uint8_t>(mask, t * n + x) & k.flag) m++;
                }
                if (inside) vf_check(get<uint8_t>(*k.a, i * n + c) == sat(m), k.label);
            }
        }
    }
    vf_cover("end");
}
static ndarray background(const Shape &sh, int layout) { // every sample unflagged, fully flagged, or a mixture
    int b = vf_pick("background", 0, 2); auto p = plain_mask(layout ? Shape{sh[0] + 1, sh[1] * 2 + 1} : sh);
    for (int64_t i = 0; i < p.numel(); ++i) p.data_ptr<uint8_t>()[i] = b == 0 ? 0 : b == 1 ? 255 : (uint8_t)(1 << (i % 3));
    if (layout) { p = ndarray(cut(p, 0, 1, sh[0] + 1)); p = ndarray(cut(p, 1, 1, sh[1] * 2 + 1, 2)); }
    return p;
}
static void set(ndarray &m, int64_t n) { m.data_ptr<uint8_t>()[pos(m, coords(n, m.shape()))] = vf_u8("flag"); }
ENTRY e_one() { // any flags on any one sample
    Shape sh{3, 5}; ndarray m = background(sh, vf_pick("layout", 0, 1)); set(m, vf_pick("sample", 0, 14));
    counts(sh, rates(-4, 5, 2, vf_pick("desmear", 0, 1)), m);
}
ENTRY e_two() { // any flags on two samples
    Shape sh{2, 4}; ndarray m = background(sh, 0); int64_t i = vf_pick("sample", 0, 7), j = vf_pick("other", 0, 7); if (i >= j || (!THOROUGH && (i + j) % 3)) return; set(m, i); set(m, j);
    counts(sh, rates(-3, 4, 1, true), m);
}
ENTRY e_far() { // drifts beyond the band
    Shape sh{3, 4}; ndarray m = background(sh, 0); set(m, vf_pick("sample", 0, 11)); static const int64_t L[] = {-12, 3, 8}; int64_t l = L[vf_pick("low", 0, 2)];
    counts(sh, rates(l, l + 5, 1, vf_pick("desmear", 0, 1)), m);
}
ENTRY e_many() { // more flagged samples than a counter can hold
    Shape sh{16, 290}; auto m = plain_mask(sh, vf_pick("all", 0, 1) ? 7 : 6); set(m, vf_pick("sample", 0, 1) ? 5 * 290 + 95 : 0); int64_t l = vf_pick("low", 0, 1) ? 246 : -246;
    counts(sh, rates(l, l + 1, 1, true), m);
}
ENTRY e_wide_band() { // more channels, or spectra, than 8-, 15- or 16-bit indices count
    int form = vf_pick("form", 0, 4); Shape sh = form == 4 ? Shape{2, 320} : form == 1 ? Shape{300, 24} : Shape{3, form ? 40300 : 70000}; auto o = form == 4 ? rates(-145, 145, 1, false) : form > 1 ? rates(form == 2 ? -40000 : 40000, form == 2 ? -39999 : 40001, 1, false) : rates(form ? -4 : -2, form ? 5 : 3, form ? 4 : 2, true); int64_t T = sh[0], n = sh[1]; ndarray m = plain_mask(sh); auto p = m.data_ptr<uint8_t>(); for (int64_t i = 0; i < T * n; ++i) p[i] = form == 1 ? (i % 24 < 20 ? 7 - i % 3 : 0) : i * 5 % 11; p[T * n - 9] = vf_u8("flag"); std::vector<uint8_t> q(p, p + T * n);
    auto cc = bliss::integrate_drifts(channel(plain(sh, 1), m), o); auto plane = cc.integrated_drift_plane(); auto d = plane.drift_rate_info(); auto f = plane.integrated_rfi(); struct { ndarray *a; uint8_t flag; const char *label; } K[] = {{&f.low_spectral_kurtosis, 2, "low spectral kurtosis count"}, {&f.high_spectral_kurtosis, 4, "high spectral kurtosis count"}, {&f.filter_rolloff, 1, "filter rolloff count"}};
    for (auto &k : K) { bool shape = same(k.a->shape(), {(int64_t)d.size(), n}) && !d.empty(); vf_check(shape, "shape of the counts"); if (!shape) return; auto in = places(*k.a, k.a->shape());
        for (int64_t i = 0; i < (int64_t)d.size(); ++i) { int64_t B = d[i].desmeared_bins, dir = d[i].drift_rate_slope >= 0 ? 1 : -1; std::vector<int64_t> by; for (int64_t t = 0; t < T; ++t) by.push_back((int64_t)std::round(d[i].drift_rate_slope * t));
            for (int64_t c = 0; c < n; ++c) { int64_t s = 0; bool inside = true; for (int64_t t = 0; t < T; ++t) for (int64_t b = 0; b < B; ++b) { int64_t x = c + by[t] + dir * b; if (x < 0 || x >= n) inside = false; else s += q[t * n + x] & k.flag ? 1 : 0; } if (inside) vf_check(k.a->data_ptr<uint8_t>()[in[i * n + c]] == sat(s), k.label); } } }
    vf_cover("end");
}
