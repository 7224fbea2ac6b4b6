// C04: processing steps at every level, and transforms.
#include "fil.hpp"
#include "flag.hpp"
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
enum { NORMALIZE, EQUALIZE, ROLLOFF, KURTOSIS, LEVEL, PEAK, CLIP, NOISE, DRIFTS, STEPS, SEARCH = STEPS, FILTER, ALL };
static float response[] = {2, 0.5f, 4};
static int variant = 0; FRESH(variant); // of the parameters of each step
static float either(float a, float b) { return variant ? b : a; }
template <class X> static X step(int k, X x) {
    switch (k) {
    case NORMALIZE: return normalize(x);
    case EQUALIZE: { ndarray h({3}, dt<float>(), CPU()); for (int i = 0; i < 3; ++i) h.data_ptr<float>()[i] = response[i]; return equalize_passband_filter(x, h); }
    case ROLLOFF: return flag_filter_rolloff(x, either(0.3f, 0.7f));
    case KURTOSIS: return flag_spectral_kurtosis(x, either(1, 0.25f), either(3, 1), either(0.5f, 2));
    case LEVEL: return flag_magnitude(x, either(9, -1));
    case PEAK: return flag_magnitude(x);
    case CLIP: return flag_sigmaclip(x, variant ? 3 : 1, either(1, 2), either(2, 0.5f));
    case DRIFTS: return integrate_drifts(x, rates(variant ? 0 : -1, 2, 1, variant));
    case FILTER: { filter_options o; o.filter_zero_drift = true; return filter_hits(x, o); }
    default: if constexpr (!std::is_same<X, coarse_channel>::value) { if (k == NOISE) { noise_power_estimate_options o; o.estimator_method = noise_power_estimator::STDDEV; o.masked_estimate = variant; return estimate_noise_power(x, o); } hit_search_options h; h.snr_threshold = 2; h.neighbor_l1_dist = 1; return hit_search(x, h); }
             else { if (k == NOISE) { noise_power_estimate_options o; o.estimator_method = noise_power_estimator::STDDEV; o.masked_estimate = variant; x.set_noise_estimate(estimate_noise_power(x, o)); return x; } hit_search_options h; h.snr_threshold = 2; h.neighbor_l1_dist = 1; x.set_hits(hit_search(x, h)); return x; }
    }
}
static void alike(coarse_channel a, coarse_channel b) { // everything observable
    ndarray p = a.data(), q = b.data(), m = a.mask(), n = b.mask(); bool ok = p.shape() == q.shape() && m.shape() == n.shape(); vf_check(ok, "shapes"); if (!ok) return;
    for (int64_t i = 0; i < count(p.shape()); ++i) { vf_check(get<float>(p, i) == get<float>(q, i), "data"); vf_check(get<uint8_t>(m, i) == get<uint8_t>(n, i), "flags"); } vf_check(a.fch1() == b.fch1() && a.foff() == b.foff() && a.tsamp() == b.tsamp() && a.tstart() == b.tstart() && a.source_name() == b.source_name() && a._coarse_channel_number == b._coarse_channel_number, "description");
    bool an = !throws([&] { a.noise_estimate(); }), bn = !throws([&] { b.noise_estimate(); }); vf_check(an == bn, "noise estimate"); if (an && bn) { auto s = a.noise_estimate(), t = b.noise_estimate(); vf_check(s.noise_floor() == t.noise_floor(), "noise floor"); double d = s.noise_power() - t.noise_power(); vf_check(d <= 1e-3 && d >= -1e-3, "noise power"); }
    bool ad = !throws([&] { a.integrated_drift_plane(); }), bd = !throws([&] { b.integrated_drift_plane(); }); vf_check(ad == bd, "drift plane"); if (ad && bd) { ndarray s = a.integrated_drift_plane().integrated_drift_plane(), t = b.integrated_drift_plane().integrated_drift_plane(); bool e = s.shape() == t.shape(); vf_check(e, "shape of the drift plane"); if (e) for (int64_t i = 0; i < count(s.shape()); ++i) vf_check(get<float>(s, i) == get<float>(t, i), "drift plane"); }
    vf_check(a.has_hits() == b.has_hits(), "presence of hits"); if (a.has_hits() && b.has_hits()) vf_check(a.hits() == b.hits(), "hits");
}
// of the six samples, how many powers and how many flags are symbolic (these two steps branch on every sample)
static int powers = 6, masks = 6; FRESH(powers); FRESH(masks); FRESH(response);
static coarse_channel built(int k, int j, bool symbolic) { Shape s{2, 3}; ndarray d = plain(s), m = plain_mask(s); for (int64_t i = 0; i < 6; ++i) { d.data_ptr<float>()[i] = symbolic && i >= 6 - powers ? vf_realf("power", 0.5, 20) : 1 + (k + 2 * j + 3 * i) % 7; m.data_ptr<uint8_t>()[i] = symbolic && i >= 6 - masks ? vf_u8("flags") : 0; } return channel(d, m, 1000 - 1.5 * j, -0.5, 2, 5 + k, j); }
static scan scan_of(int k, int which) { std::map<int, std::shared_ptr<coarse_channel>> m; for (int j = 0; j < 2; ++j) m[j] = std::make_shared<coarse_channel>(built(k, j, which == 2 * k + j)); return scan(m); }
// scan 0..3: two targets of two scans; the coarse channel looked at (2 * scan + channel) has symbolic contents
static coarse_channel direct(int n, std::vector<scan> &v, const std::vector<int> &steps) { auto c = *v[n / 2].read_coarse_channel(n % 2); for (int k : steps) c = step(k, c); return c; }
static void levels(const std::vector<int> &steps, int level, int n) {
    for (int k : steps) { if (k == CLIP) powers = 1; if (k == DRIFTS || (k == NOISE && variant)) masks = 2; }
    std::vector<scan> v; for (int k = 0; k < 4; ++k) v.push_back(scan_of(k, n)); auto want = direct(n, v, steps); std::shared_ptr<coarse_channel> got, again;
    if (level == 0) { scan s = v[n / 2]; for (int k : steps) s = step(k, s); got = s.read_coarse_channel(n % 2); again = s.peak_coarse_channel(n % 2); }
    else if (level == 1) { observation_target t({v[0], v[n / 2]}); for (int k : steps) t = step(k, t); got = t._scans[1].read_coarse_channel(n % 2); again = t._scans[1].read_coarse_channel(n % 2); }
    else { cadence c({observation_target({v[0], v[1]}), observation_target({v[2], v[3]})}); for (int k : steps) c = step(k, c); auto &s = c._observations[n / 4]._scans[n / 2 % 2]; got = s.read_coarse_channel(n % 2); again = s.read_coarse_channel(n % 2); }
    bool there = got && again; vf_check(there, "the coarse channel is there"); if (!there) return; alike(*got, want); alike(*again, want); alike(*v[n / 2].read_coarse_channel(n % 2), direct(n, v, {})); vf_cover("end");
}
ENTRY e_steps() { int k = vf_pick("step", 0, STEPS - 1), l = vf_pick("level", 0, 2); variant = vf_pick("parameters", 0, 1); levels({k}, l, l == 0 ? 3 : l == 1 ? 2 : 5); }
ENTRY e_pairs() { static const int A[][2] = {{NORMALIZE, EQUALIZE}, {EQUALIZE, NORMALIZE}, {EQUALIZE, LEVEL}, {LEVEL, EQUALIZE}, {ROLLOFF, LEVEL}, {NORMALIZE, NOISE}, {NOISE, NORMALIZE}, {ROLLOFF, DRIFTS}, {DRIFTS, NORMALIZE}, {KURTOSIS, EQUALIZE}, {LEVEL, ROLLOFF}, {NORMALIZE, NORMALIZE}}; int p = vf_pick("steps", 0, 11), l = vf_pick("level", 0, 2); levels({A[p][0], A[p][1]}, l, l == 0 ? 2 : 7); }
ENTRY e_search() { // the whole search, with a signal in each channel
    int l = vf_pick("level", 0, 2), filtered = vf_pick("filtered", 0, 1), n = vf_pick("channel", 0, 7); std::vector<int> steps{ROLLOFF, NOISE, DRIFTS, SEARCH}; if (filtered) steps.push_back(FILTER); if (l == 1) n = 2 + n % 6; // the second scan of the target
    std::vector<scan> v; for (int k = 0; k < 4; ++k) { std::map<int, std::shared_ptr<coarse_channel>> m; double f = vf_real("fch1", 900, 1100); for (int j = 0; j < 2; ++j) { Shape s{4, 8}; ndarray d = plain(s, 1); for (int64_t t = 0; t < 4; ++t) d.data_ptr<float>()[t * 8 + 2 + j + (k % 2) * t / 3] = 40 + k; m[j] = std::make_shared<coarse_channel>(channel(d, plain_mask(s), f - 4 * j, -0.5, 2, 5 + k, j)); } v.push_back(scan(m)); }
    auto want = direct(n, v, steps); scan s; if (l == 0) { s = v[n / 2]; for (int k : steps) s = step(k, s); } else if (l == 1) { observation_target t({v[0], v[n / 2]}); for (int k : steps) t = step(k, t); s = t._scans[1]; } else { cadence c({observation_target({v[0], v[1]}), observation_target({v[2], v[3]})}); for (int k : steps) c = step(k, c); s = c._observations[n / 4]._scans[n / 2 % 2]; }
    alike(*s.read_coarse_channel(n % 2), want); std::list<hit> both; for (int j = 0; j < 2; ++j) for (auto h : direct(2 * (n / 2) + j, v, steps).hits()) both.push_back(h); vf_check(s.hits() == both, "the hits of a scan are those of its coarse channels"); if (!filtered) vf_check(want.hits().size() >= 1, "there is something to find"); vf_cover("end");
}
// transforms: each maps every sample x to 3 x + its number, so that the result tells which were applied and in what order
static int applied; FRESH(applied); static std::function<coarse_channel(coarse_channel)> numbered(int k) { return [k](coarse_channel c) { ++applied; ndarray d = c.data(); ndarray e = plain(d.shape()); for (int64_t i = 0; i < count(d.shape()); ++i) e.data_ptr<float>()[i] = 3 * get<float>(d, i) + k; c.set_data(e); return c; }; }
static void expect(scan &s, int index, const std::vector<float> &base, const std::vector<int> &ks, bool peek = false) { applied = 0; auto c = peek ? s.peak_coarse_channel(index) : s.read_coarse_channel(index); vf_check(c != nullptr, "the channel is there"); if (!c) return; vf_check(applied == (int)ks.size(), "each transform once"); ndarray d = c->data(); for (size_t i = 0; i < base.size(); ++i) { float v = base[i]; for (int k : ks) v = 3 * v + k; vf_check(get<float>(d, i) == v, "in the order added"); } }
ENTRY e_transforms() { // any history of three operations: add to the scan, copy it, slice it, read
    bool file = vf_pick("file", 0, 1); Header h; h.nchans = 6; scan s; std::vector<std::vector<float>> base(2);
    if (file) { s = opened(h, 3); for (int j = 0; j < 2; ++j) for (int i = 0; i < 6; ++i) base[j].push_back(cell(i / 3, 3 * j + i % 3)); } else { std::map<int, std::shared_ptr<coarse_channel>> m; for (int j = 0; j < 2; ++j) { auto c = built(0, j, true); ndarray d = c.data(); for (int64_t i = 0; i < 6; ++i) base[j].push_back(get<float>(d, i)); m[j] = std::make_shared<coarse_channel>(c); } s = scan(m); }
    struct View { scan s; int first, n; std::vector<int> ks; }; std::vector<View> v{{s, 0, 2, {}}}; int next = 1;
    for (int op = 0; op < (THOROUGH ? 4 : 3); ++op) switch (vf_pick("operation", 0, 3)) {
        case 0: { auto &w = v[v.size() - 1]; w.s.add_coarse_channel_transform(numbered(next)); w.ks.push_back(next++); break; }
        case 1: { auto &w = v[0]; w.s.add_coarse_channel_transform(numbered(next)); w.ks.push_back(next++); break; }
        case 2: { View w = v.back(); if (w.n == 2) { w.s = w.s.slice_scan_channels(1, 1); w.first = 1; w.n = 1; } v.push_back(w); break; }
        default: { auto &w = v.back(); expect(w.s, 0, base[w.first], w.ks); break; }
    }
    for (auto &w : v) for (int j = 0; j < w.n; ++j) { expect(w.s, j, base[w.first + j], w.ks); expect(w.s, j, base[w.first + j], w.ks, true); } vf_cover("end");
}
