// D08: hit filtering.
#include "cc.hpp"
#include <core/cadence.hpp>
#include <drift_search/filter_hits.hpp>
#include <map>
static hit some(int id, double drift) {
    hit h; h.start_freq_index = 100 + id; h.start_freq_MHz = 1000.5 + id; h.start_time_sec = 5 + id; h.duration_sec = 300; h.rate_index = id; h.drift_rate_Hz_per_sec = drift; h.power = 50 + id; h.time_span_steps = 16; h.snr = 11 + id; h.bandwidth = 2; h.binwidth = 3; h.coarse_channel_number = id; return h;
}
static void filtered(const std::vector<hit> &in, const std::vector<char> &keep, const std::list<hit> &out) {
    size_t want = 0; for (auto k : keep) want += k; vf_check(out.size() == want, "exactly the selected hits are removed"); if (out.size() != want) return;
    auto o = out.begin(); for (size_t i = 0; i < in.size(); ++i) if (keep[i]) { vf_check(*o == in[i] && o->coarse_channel_number == in[i].coarse_channel_number, "kept hits keep their order and contents"); vf_check(o->rfi_counts == in[i].rfi_counts && o->rfi_counts.size() == in[i].rfi_counts.size(), "kept hits keep their flag counts"); ++o; }
}
struct In { std::vector<hit> v; std::vector<char> keep; };
static void add(In &r, bool zero, int entries) { // entries: which counts the hit has
    int id = r.v.size(); double d = vf_real("drift", -5, 5); vf_assume(d >= 1.001e-6 || d <= -1.001e-6 || (d < 0.999e-6 && d > -0.999e-6)); hit h = some(id, d); bool keep = true;
    if (entries & 1) { uint8_t c = vf_u8("rolloff"); h.rfi_counts[flag_values::filter_rolloff] = c; if (c > 0) keep = false; }
    if (entries & 2) { uint8_t c = vf_u8("low kurtosis"); h.rfi_counts[flag_values::low_spectral_kurtosis] = c; if (c > 0) keep = false; }
    if (entries & 4) h.rfi_counts[flag_values::high_spectral_kurtosis] = vf_u8("high kurtosis");
    if (entries & 8) h.rfi_counts[flag_values::magnitude] = vf_u8("magnitude");
    if (zero && d < 0.999e-6 && d > -0.999e-6) keep = false;
    r.v.push_back(h); r.keep.push_back(keep);
}
ENTRY e_one() { filter_options o; o.filter_zero_drift = vf_pick("zero", 0, 1); In in; add(in, o.filter_zero_drift, vf_pick("entries", 0, 15)); filtered(in.v, in.keep, filter_hits(std::list<hit>(in.v.begin(), in.v.end()), o)); vf_cover("end"); }
ENTRY e_lists() {
    filter_options o; o.filter_zero_drift = vf_pick("zero", 0, 1); int n = vf_pick("hits", 0, THOROUGH ? 4 : 3), e = vf_pick("entries", 0, 2); In in; for (int i = 0; i < n; ++i) add(in, o.filter_zero_drift, e == 0 ? 7 : e == 1 ? 1 << (i % 3) : 3);
    filtered(in.v, in.keep, filter_hits(std::list<hit>(in.v.begin(), in.v.end()), o)); vf_cover("end");
}
ENTRY e_default() { In in; add(in, true, 7); add(in, true, 6); filtered(in.v, in.keep, filter_hits(std::list<hit>(in.v.begin(), in.v.end()), filter_options())); vf_cover("end"); }
ENTRY e_channel() { // a channel, a scan and a cadence
    filter_options o; o.filter_zero_drift = vf_pick("zero", 0, 1); int how = vf_pick("how", 0, 3); In in; for (int i = 0; i < 2; ++i) add(in, o.filter_zero_drift, 3);
    auto cc = channel(plain({2, 4}), plain_mask({2, 4})); cc.set_hits(std::list<hit>(in.v.begin(), in.v.end()));
    if (how == 0) filtered(in.v, in.keep, filter_hits(cc, o).hits());
    else {
        std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc); scan s(m);
        if (how == 1) filtered(in.v, in.keep, filter_hits(s, o).hits());
        if (how == 2) filtered(in.v, in.keep, filter_hits(observation_target(std::vector<scan>{s}), o)._scans[0].hits());
        if (how == 3) filtered(in.v, in.keep, filter_hits(cadence(std::vector<observation_target>{observation_target(std::vector<scan>{s})}), o)._observations[0]._scans[0].hits());
        filtered(in.v, std::vector<char>(in.v.size(), 1), s.hits());
    }
    filtered(in.v, std::vector<char>(in.v.size(), 1), cc.hits()); vf_cover("end");
}
ENTRY e_no_hits() { auto cc = channel(plain({2, 4}), plain_mask({2, 4})); vf_check(throws([&] { auto c = filter_hits(cc, filter_options()); (void)c; }), "a channel that was not searched is rejected"); vf_cover("end"); }
ENTRY e_many() { // more hits than 8-, 15- or 16-bit numbers count
    filter_options o; o.filter_zero_drift = vf_pick("zero", 0, 1); int64_t n = vf_pick("hits", 0, 1) ? 70000 : 300; In in; in.v.reserve(n); uint8_t last = vf_u8("rolloff"); for (int64_t i = 0; i < n; ++i) { hit h = some(i, i % 5 == 2 ? 0 : 0.5 - i % 3); bool keep = !(o.filter_zero_drift && h.drift_rate_Hz_per_sec == 0); uint8_t c = i == n - 2 ? last : i % 7 == 3; h.rfi_counts[flag_values::filter_rolloff] = c; if (c > 0) keep = false; in.v.push_back(h); in.keep.push_back(keep); }
    filtered(in.v, in.keep, filter_hits(std::list<hit>(in.v.begin(), in.v.end()), o)); vf_cover("end");
}
