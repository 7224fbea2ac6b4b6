// D09: events of a cadence.
#include "cc.hpp"
#include <core/cadence.hpp>
#include <drift_search/event_search.hpp>
#include <cmath>
#include <map>
static const double DAY = 86400, LONG = 300;
static int slot[8] = {0, 1, 2, 3, 4, 5, 6, 7}; // when each scan was taken: in the order of the cadence unless said otherwise
FRESH(slot);
static double began(int s) { return 57000 + slot[s] * 320 / DAY; }
static hit seen(int id, int s, double MHz, double drift) {
    hit h; h.start_freq_index = 10 + id; h.start_freq_MHz = MHz; h.start_time_sec = began(s) * DAY; h.duration_sec = LONG; h.rate_index = id; h.drift_rate_Hz_per_sec = drift; h.power = 1000 + 7 * id; h.time_span_steps = 16; h.snr = 20 + id; h.bandwidth = 3 + id; h.binwidth = 1; h.coarse_channel_number = 0; return h;
}
static scan scan_of(int s, const std::vector<hit> &v) {
    auto cc = channel(plain({16, 4}), plain_mask({16, 4}), 1000, -1e-6, LONG / 16, began(s)); cc.set_hits(std::list<hit>(v.begin(), v.end()));
    std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc); return scan(m);
}
static double apart(const hit &a, const hit &b) { // how far two hits are apart, by the documented weights
    double da = a.drift_rate_Hz_per_sec, db = b.drift_rate_Hz_per_sec, dd = std::fabs(da - db) / (1e-8 + da * da + db * db);
    double first = a.start_time_sec < b.start_time_sec ? a.start_time_sec : b.start_time_sec, ea = a.start_time_sec + a.duration_sec, eb = b.start_time_sec + b.duration_sec, mid = ((ea > eb ? ea : eb) + first) / 2;
    double f = (a.start_freq_MHz - b.start_freq_MHz) * 1e6 + da * (mid - a.start_time_sec) - db * (mid - b.start_time_sec); if (f < 0) f = -f;
    return 0.01 * f + 10 * dd * dd;
}
static bool below(double d) { vf_assume(d <= 49.99 || d >= 50.01); return d < 50; }
static void search(const std::vector<std::vector<hit>> &on, const std::vector<std::vector<hit>> &off, bool own = false) {
    std::vector<scan> A, B; int s = 0; for (size_t i = 0; i < on.size() || i < off.size(); ++i) { if (i < on.size()) A.push_back(scan_of(2 * i, on[i])); if (i < off.size()) B.push_back(scan_of(2 * i + 1, off[i])); }
    std::vector<observation_target> t{observation_target(A)}; if (own) for (auto &b : B) t.push_back(observation_target({b})); else if (!B.empty()) t.push_back(observation_target(B));
    auto found = event_search(cadence(t)); auto left = on; size_t next = 0; (void)s;
    for (size_t i = 0; i < on.size(); ++i) for (const auto h : std::vector<hit>(left[i])) { // every hit left starts a candidate that takes the closest hit of each later scan
        std::vector<hit> ev{h}; double from = began(2 * i), to = from;
        for (size_t j = i + 1; j < on.size(); ++j) {
            int best = -1; double bd = 0;
            for (size_t k = 0; k < left[j].size(); ++k) { double d = -1; for (auto &e : ev) { double x = apart(e, left[j][k]); if (d < 0 || x < d) d = x; } if (best >= 0) vf_assume(d - bd > 1e-3 || bd - d > 1e-3); if (best < 0 || d < bd) { best = k; bd = d; } }
            if (best >= 0 && below(bd)) { ev.push_back(left[j][best]); left[j].erase(left[j].begin() + best); from = std::min(from, began(2 * j)); to = std::max(to, began(2 * j)); }
        }
        bool elsewhere = false;
        for (auto &o : off) for (auto &x : o) { double sum = 0; for (auto &e : ev) sum += apart(x, e); if (below(sum / ev.size())) elsewhere = true; }
        if (ev.size() < 2 || elsewhere) continue;
        vf_check(next < found.size(), "a signal seen repeatedly on target and never off target is an event"); if (next >= found.size()) return;
        auto &e = found[next++]; vf_check(e.hits.size() == ev.size(), "hits of the event"); if (e.hits.size() != ev.size()) return;
        auto it = e.hits.begin(); double p = 0, b = 0, r = 0, w = 0; bool same = true; for (auto &x : ev) { if (!(*it == x)) same = false; ++it; p += x.power; r += x.drift_rate_Hz_per_sec; w += x.snr; b += x.bandwidth; }
        vf_check(same, "the event joins the closest hits"); double k = ev.size();
        vf_close(e.average_power, p / k, 1e-2, "average power"); vf_close(e.average_snr, w / k, 1e-3, "average signal to noise"); vf_close(e.average_drift_rate_Hz_per_sec, r / k, 1e-6, "average drift rate"); vf_close(e.average_bandwidth, b / k, 1e-3, "average bandwidth");
        vf_close(e.starting_frequency_Hz, h.start_freq_MHz * 1e6, 1e-2, "starting frequency"); vf_close(e.event_start_seconds, from * DAY, 1e-2, "start of the event"); vf_close(e.event_end_seconds, to * DAY + LONG, 1e-2, "end of the event");
    }
    vf_check(next == found.size(), "no other events"); vf_cover("end");
}
static double freq(const char *n) { return vf_real(n, 1000, 1000.02); }
static const double R[] = {0, 0.5, -1, 0.6, 3};
ENTRY e_pair() { double a = R[vf_pick("drift", 0, 4)], b = R[vf_pick("other", 0, 4)]; search({{seen(0, 0, freq("a"), a)}, {seen(1, 2, freq("b"), b)}}, {}); }
ENTRY e_off() { double a = R[vf_pick("drift", 0, 2)], o = R[vf_pick("off", 0, 3)]; search({{seen(0, 0, 1000.01, a)}, {seen(1, 2, freq("b"), a)}}, {{seen(2, 1, freq("c"), o)}}); }
ENTRY e_order() { // the scans of a target need not be given in the order they were taken
    static const int O[][3] = {{2, 0, 4}, {4, 2, 0}, {0, 4, 2}, {2, 4, 0}}; auto o = O[vf_pick("order", 0, 3)]; for (int k = 0; k < 3; ++k) slot[2 * k] = o[k]; search({{seen(0, 0, 1000.01, 0.5)}, {seen(1, 2, freq("b"), 0.5)}, {seen(2, 4, 1000.0102, 0.5)}}, {{seen(3, 1, 1000.3, 0.5)}});
}
ENTRY e_targets() { // every off scan looks at a target of its own
    int w = vf_pick("target", 0, 2); std::vector<std::vector<hit>> off(3); off[w].push_back(seen(2, 1 + 2 * w, freq("c"), 0.5)); search({{seen(0, 0, 1000.01, 0.5)}, {seen(1, 2, 1000.0105, 0.5)}, {}}, off, true);
}
ENTRY e_three() { double a = R[vf_pick("drift", 0, 2)]; search({{seen(0, 0, freq("a"), a)}, {seen(1, 2, freq("b"), a)}, {seen(2, 4, freq("c"), a)}}, {}); }
ENTRY e_three_off() { double a = R[vf_pick("drift", 0, 1)]; search({{seen(0, 0, 1000.01, a)}, {seen(1, 2, freq("b"), a)}, {seen(2, 4, 1000.0125, a)}}, {{seen(3, 1, freq("c"), a)}, {seen(4, 3, 1000.3, a)}}); }
ENTRY e_choice() { double a = R[vf_pick("drift", 0, 1)], b = R[vf_pick("other", 0, 2)]; search({{seen(0, 0, 1000.01, a)}, {seen(1, 2, freq("b"), a), seen(2, 2, freq("c"), b)}}, {}); }
ENTRY e_compete() { search({{seen(0, 0, 1000.01, 0.5), seen(1, 0, freq("a"), 0.5)}, {seen(2, 2, 1000.012, 0.5), seen(3, 2, freq("b"), 0.5)}}, {}); }
ENTRY e_six() { search({{seen(0, 0, 1000.01, 0), seen(1, 0, 1000.004, 0)}, {seen(2, 2, freq("a"), 0), seen(3, 2, 1000.018, 0)}, {seen(4, 4, 1000.014, 0), seen(5, 4, freq("b"), 0)}}, {}); }
ENTRY e_middle() { search({{}, {seen(0, 2, 1000.01, 0.5)}, {seen(1, 4, freq("a"), 0.5)}}, {{seen(2, 1, freq("b"), 0.5)}, {}}); }
ENTRY e_drifts() { // drift rates whose difference alone decides
    static const double P[][2] = {{0.2, 0.1}, {0.2, 0.08}, {-0.4, 0.4}, {0.5, -0.5}, {4, -3}, {1e-4, 0}}; auto p = P[vf_pick("drifts", 0, THOROUGH ? 5 : 3)]; search({{seen(0, 0, 1000.01, p[0])}, {seen(1, 2, freq("b"), p[1])}}, {});
}
ENTRY e_none() { int w = vf_pick("form", 0, 2); if (w == 0) vf_check(event_search(cadence(std::vector<observation_target>{})).empty(), "no events without observations"); else if (w == 1) search({}, {}); else search({{}, {}}, {{seen(0, 1, 1000, 0)}}); vf_cover("end"); }
