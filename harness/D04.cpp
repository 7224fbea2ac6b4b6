// D04: the two back ends that integrate drifts on the CPU.
#include "cc.hpp"
#include <drift_search/integrate_drifts.hpp>
#include "drift_search/kernels/drift_integration_bland.hpp"
namespace bliss { frequency_drift_plane integrate_linear_rounded_bins_cpu(bland::ndarray, bland::ndarray, std::vector<frequency_drift_plane::drift_rate>, integrate_drifts_options); }
static void agree(const Shape &sh, const integrate_drifts_options &o, const Arr<float> &a, const ndarray &mask) {
    if (!view_ok(a)) return;
    auto table = bliss::integrate_drifts(channel(a.v, mask), o).integrated_drift_plane().drift_rate_info();
    auto x = bliss::integrate_linear_rounded_bins_cpu(a.v, mask, table, o), y = bliss::integrate_linear_rounded_bins_bland(a.v, mask, table, o);
    ndarray p = x.integrated_drift_plane(), q = y.integrated_drift_plane(); auto f = x.integrated_rfi(), g = y.integrated_rfi();
    vf_check(x.integration_steps() == y.integration_steps() && x.drift_rate_info().size() == y.drift_rate_info().size(), "same description");
    vf_check(same(p.shape(), q.shape()), "same shape"); if (!same(p.shape(), q.shape())) return;
    for (int64_t i = 0; i < p.numel(); ++i) {
        vf_close(get<float>(p, i), get<float>(q, i), 1e-3, "same integrated power");
        vf_check(get<uint8_t>(f.low_spectral_kurtosis, i) == get<uint8_t>(g.low_spectral_kurtosis, i), "same low spectral kurtosis count");
        vf_check(get<uint8_t>(f.high_spectral_kurtosis, i) == get<uint8_t>(g.high_spectral_kurtosis, i), "same high spectral kurtosis count");
        vf_check(get<uint8_t>(f.filter_rolloff, i) == get<uint8_t>(g.filter_rolloff, i), "same filter rolloff count");
    }
    a.unchanged("spectrogram unchanged"); vf_cover("end");
}
static ndarray flags(const Shape &sh, int bg) { ndarray m = plain_mask(sh, bg == 1 ? 255 : 0); if (bg == 2) for (int64_t i = 0; i < m.numel(); ++i) m.data_ptr<uint8_t>()[i] = (uint8_t)(1 << (i % 3)); return m; }
ENTRY e_power() {
    static const int64_t R[][3] = {{-3, 4, 1}, {-9, -4, 1}, {5, 10, 1}, {-12, 13, 4}}; auto r = R[vf_pick("range", 0, 3)];
    Shape sh{vf_pick("spectra", 1, THOROUGH ? 4 : 3), vf_pick("channels", 4, THOROUGH ? 7 : 5)};
    agree(sh, rates(r[0], r[1], r[2], vf_pick("desmear", 0, 1)), make<float>("a", sh, DENSE), flags(sh, 2));
}
ENTRY e_layouts() { Shape sh{3, 4}; agree(sh, rates(-2, 3, 1, true), make<float>("a", sh, vf_pick("layout", 0, NLAYOUTS - 1)), flags(sh, 2)); }
ENTRY e_flags() {
    Shape sh{3, 4}; ndarray m = flags(sh, vf_pick("background", 0, 2)); m.data_ptr<uint8_t>()[vf_pick("sample", 0, 11)] = vf_u8("flag"); static const int64_t L[] = {-9, -3, 2}; int64_t l = L[vf_pick("low", 0, 2)];
    agree(sh, rates(l, l + 6, 1, true), make<float>("a", sh, DENSE), m);
}
ENTRY e_many() { // more flagged samples than a counter can hold
    Shape sh{16, 290}; ndarray m = flags(sh, 1); m.data_ptr<uint8_t>()[5 * 290 + 95] = vf_u8("flag"); int64_t l = vf_pick("low", 0, 1) ? 246 : -246;
    auto a = make<float>("a", {1, 1}, DENSE); a = Arr<float>{plain(sh), plain(sh), sh, sh, {}, {}, DENSE}; for (int64_t i = 0; i < count(sh); ++i) { a.init.push_back(0); a.where.push_back(i); }
    agree(sh, rates(l, l + 1, 1, true), a, m);
}
ENTRY e_wide_band() { // more channels, or spectra, than 8-, 15- or 16-bit indices count
    int form = vf_pick("form", 0, 4); SPARSE = form == 1 || form == 4 ? 1021 : 16384; Shape sh = form == 4 ? Shape{2, 320} : form == 1 ? Shape{300, 24} : Shape{3, form ? 40300 : 70000}; auto a = make<float>("a", sh, DENSE, 0, 64); ndarray m = flags(sh, 2); auto o = form == 4 ? rates(-145, 145, 1, false) : form > 1 ? rates(form == 2 ? -40000 : 40000, form == 2 ? -39999 : 40001, 1, false) : rates(form ? -4 : -2, form ? 5 : 3, form ? 4 : 2, true);
    auto table = bliss::integrate_drifts(channel(a.v, m), o).integrated_drift_plane().drift_rate_info(); auto x = bliss::integrate_linear_rounded_bins_cpu(a.v, m, table, o), y = bliss::integrate_linear_rounded_bins_bland(a.v, m, table, o); ndarray p = x.integrated_drift_plane(), q = y.integrated_drift_plane(); auto f = x.integrated_rfi(), g = y.integrated_rfi();
    bool shape = same(p.shape(), q.shape()) && same(p.shape(), {(int64_t)table.size(), sh[1]}); vf_check(shape, "same shape"); if (!shape) return; auto ip = places(p, p.shape()), iq = places(q, q.shape()); for (int64_t i = 0; i < p.numel(); ++i) vf_close(p.data_ptr<float>()[ip[i]], q.data_ptr<float>()[iq[i]], 1e-3, "same integrated power");
    struct { ndarray *a, *b; const char *label; } K[] = {{&f.low_spectral_kurtosis, &g.low_spectral_kurtosis, "same low spectral kurtosis count"}, {&f.high_spectral_kurtosis, &g.high_spectral_kurtosis, "same high spectral kurtosis count"}, {&f.filter_rolloff, &g.filter_rolloff, "same filter rolloff count"}};
    for (auto &k : K) { auto u = places(*k.a, p.shape()), v = places(*k.b, p.shape()); for (int64_t i = 0; i < p.numel(); ++i) vf_check(k.a->data_ptr<uint8_t>()[u[i]] == k.b->data_ptr<uint8_t>()[v[i]], k.label); } vf_cover("end");
}
