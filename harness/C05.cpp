// C05: summaries of targets and cadences.
#include "fil.hpp"
static double apart(const char *n) { double d = vf_real(n, -2e-6, 2e-6); vf_assume((d < 0.9e-6 && d > -0.9e-6) || d > 1.1e-6 || d < -1.1e-6); return d; } // the documented tolerance is 1 Hz
static bool near(double d) { return d < 1e-6 && d > -1e-6; }
struct Kind { bool same; int coarse; };
static scan one(double fch1, double foff, int64_t n, int per) { Header h; h.fch1 = fch1; h.foff = foff; h.nchans = n; file_of(h, false); return scan("file.h5", per); }
ENTRY e_target() { // two scans
    double f = vf_real("fch1", 100, 10000), w = vf_pick("down", 0, 1) ? -0.5 : 0.25, df = apart("fch1 apart"), dw = apart("foff apart"); int n = 12, m = vf_pick("channels", 0, 1) ? 12 : 16, per = vf_pick("split", 0, 1) ? 4 : 2;
    observation_target t({one(f, w, n, 4), one(f + df, w + dw, m, per)}); bool ok = near(df) && near(dw) && m == n && per == 4; vf_check(t.validate_scan_consistency() == ok, "scans are consistent exactly when their bands agree");
    int c = -1; bool threw = throws([&] { c = t.get_number_coarse_channels(); }); vf_check(threw == !ok, "only consistent scans have a number of channels"); if (!threw) vf_check(c == 3, "number of coarse channels");
    double x = f + w * 5.25; c = -1; threw = throws([&] { c = t.get_coarse_channel_with_frequency(x); }); vf_check(threw == !ok, "only consistent scans have a channel for a frequency"); if (!threw) vf_check(c == 1, "channel of a frequency"); vf_cover(ok ? "end" : "inconsistent");
}
ENTRY e_third() { // the scan that differs comes last
    double f = vf_real("fch1", 100, 10000), df = apart("fch1 apart"), dw = apart("foff apart"); int m = vf_pick("channels", 0, 1) ? 12 : 16, at = vf_pick("at", 0, 2); std::vector<scan> v; for (int k = 0; k < 3; ++k) v.push_back(k == at ? one(f + df, 0.25 + dw, m, 4) : one(f, 0.25, 12, 4));
    observation_target t(v); bool ok = near(df) && near(dw) && m == 12; vf_check(t.validate_scan_consistency() == ok, "scans are consistent exactly when their bands agree"); vf_check(throws([&] { t.get_number_coarse_channels(); }) == !ok, "only consistent scans have a number of channels"); vf_cover(ok ? "end" : "inconsistent");
}
ENTRY e_cadence() { // two targets with up to two scans
    double f = vf_real("fch1", 100, 10000), w = 0.25, df = apart("fch1 apart"), dw = apart("foff apart"); int m = vf_pick("channels", 0, 1) ? 12 : 16, per = vf_pick("split", 0, 1) ? 4 : 2, at = vf_pick("at", 0, 4), empty = vf_pick("empty", 0, 1);
    auto s = [&](int k) { return k == at ? one(f + df, w + dw, m, per) : one(f, w, 12, 4); }; std::vector<observation_target> v; if (empty) v.push_back(observation_target()); v.push_back(observation_target({s(0), s(1)})); v.push_back(observation_target({s(2), s(3)})); cadence c(v);
    bool ok = at == 4 || (near(df) && near(dw) && m == 12 && per == 4); vf_check(c.validate_scan_consistency() == ok, "scans are consistent exactly when their bands agree");
    int n = -1; bool threw = throws([&] { n = c.get_number_coarse_channels(); }); vf_check(threw == !ok, "only consistent scans have a number of channels"); if (!threw) vf_check(n == 3, "number of coarse channels");
    double x = f + w * 9; n = -1; threw = throws([&] { n = c.get_coarse_channel_with_frequency(x); }); vf_check(threw == !ok, "only consistent scans have a channel for a frequency"); if (!threw && at) vf_check(n == 2, "channel of a frequency"); vf_cover(ok ? "end" : "inconsistent");
}
ENTRY e_cadence_third() { // targets of three and four scans, the one that differs anywhere
    double f = vf_real("fch1", 100, 10000), df = apart("fch1 apart"); int at = vf_pick("at", 0, 6); std::vector<observation_target> v; std::vector<scan> s; for (int k = 0; k < 7; ++k) { s.push_back(one(k == at ? f + df : f, 0.25, 12, 4)); if (k == 2 || k == 6) { v.push_back(observation_target(s)); s.clear(); } }
    cadence c(v); vf_check(c.validate_scan_consistency() == near(df), "scans are consistent exactly when their bands agree"); vf_check(v[0].validate_scan_consistency() == (at > 2 || near(df)) && v[1].validate_scan_consistency() == (at <= 2 || near(df)), "scans of a target"); vf_check(throws([&] { c.get_number_coarse_channels(); }) == !near(df), "only consistent scans have a number of channels"); vf_cover(near(df) ? "end" : "inconsistent");
}
ENTRY e_single() { // one scan agrees with itself
    double f = vf_real("fch1", 100, 10000), w = vf_pick("down", 0, 1) ? -0.5 : 0.25; int per = vf_pick("split", 1, 4); observation_target t({one(f, w, 12, per)}); cadence c({t}), d({observation_target(), t, observation_target()}); double x = f + w * (per + 0.5); int want = 12 / per == 1 ? 0 : 1;
    vf_check(t.validate_scan_consistency() && c.validate_scan_consistency() && d.validate_scan_consistency(), "a scan agrees with itself"); vf_check(t.get_number_coarse_channels() == 12 / per && c.get_number_coarse_channels() == 12 / per && d.get_number_coarse_channels() == 12 / per, "number of coarse channels"); vf_check(t.get_coarse_channel_with_frequency(x) == want && c.get_coarse_channel_with_frequency(x) == want && d.get_coarse_channel_with_frequency(x) == want, "channel of a frequency"); vf_cover("end");
}
ENTRY e_empty() { // nothing to summarise
    observation_target t(std::vector<scan>{}), u; cadence c(std::vector<observation_target>{}), d(std::vector<observation_target>{t, u}); vf_check(throws([&] { t.get_number_coarse_channels(); }) && throws([&] { u.get_number_coarse_channels(); }) && throws([&] { c.get_number_coarse_channels(); }) && throws([&] { d.get_number_coarse_channels(); }), "nothing has no channels");
    vf_check(throws([&] { t.get_coarse_channel_with_frequency(1000); }) && throws([&] { u.get_coarse_channel_with_frequency(1000); }) && throws([&] { c.get_coarse_channel_with_frequency(1000); }) && throws([&] { d.get_coarse_channel_with_frequency(1000); }), "nothing has no channel for a frequency"); vf_check(t._target_name == "unknown", "nor a name"); vf_cover("end");
}
static void sliced(scan &s, double f, double w, int a, int n) { vf_check(s.get_number_coarse_channels() == n && s.nchans() == 4 * n && s.foff() == w && s.source_name() == "Voyager", "every scan is sliced"); vf_close(s.fch1(), f + w * 4 * a, 1e-6, "first frequency"); }
ENTRY e_slice() { // slicing slices every scan and keeps the rest
    double f = vf_real("fch1", 100, 10000), w = vf_pick("down", 0, 1) ? -0.5 : 0.25; int a = vf_pick("start", 0, 3), n = vf_pick("count", 1, 3); observation_target t({one(f, w, 12, 4), one(f, w, 12, 4)}), u({one(f, w, 12, 4)}); t._target_name = "Here"; u._target_name = "There"; cadence c({t, u});
    bool ok = a + n <= 3; observation_target v; cadence d; vf_check(throws([&] { v = t.slice_observation_channels(a, n); }) == !ok, "exactly the ranges of the scans are accepted"); vf_check(throws([&] { d = c.slice_cadence_channels(a, n); }) == !ok, "exactly the ranges of the scans are accepted");
    if (ok) {
        vf_check(v._scans.size() == 2 && v._target_name == "Here", "the target keeps its scans and name"); for (auto &s : v._scans) sliced(s, f, w, a, n); vf_check(v.get_number_coarse_channels() == n, "the slice reports its own channels");
        vf_check(d._observations.size() == 2 && d._observations[0]._target_name == "Here" && d._observations[1]._target_name == "There" && d._observations[0]._scans.size() == 2 && d._observations[1]._scans.size() == 1, "the cadence keeps its targets"); for (auto &o : d._observations) for (auto &s : o._scans) sliced(s, f, w, a, n); vf_check(d.get_number_coarse_channels() == n, "the slice reports its own channels");
    }
    vf_check(t.get_number_coarse_channels() == 3 && c.get_number_coarse_channels() == 3 && t._scans[0].fch1() == f, "the original is unchanged"); vf_cover("end");
}
ENTRY e_device() { // and the device chosen for it
    observation_target t({one(1000, 0.25, 12, 4)}); cadence c({t}); ndarray::dev g{DLDevice{kDLCPU, 3}}; t.set_device(g); c.set_device(g); vf_check(t.device() == g && c.device() == g, "device chosen"); for (auto &s : t._scans) vf_check(s.device() == g, "every scan has it"); for (auto &o : c._observations) { vf_check(o.device() == g, "every target has it"); for (auto &s : o._scans) vf_check(s.device() == g, "every scan has it"); }
    auto v = t.slice_observation_channels(1, 1); auto d = c.slice_cadence_channels(1, 1); vf_check(v.device() == g && v._scans[0].device() == g, "slices keep the device"); vf_check(d.device() == g && d._observations[0].device() == g && d._observations[0]._scans[0].device() == g, "slices keep the device"); vf_cover("end");
}
ENTRY e_names() { // the name of a target comes from its scans
    static const char *N[] = {"", "Voyager", "Mars"}; std::vector<scan> v; std::string want; int n = vf_pick("scans", 1, 3); std::vector<int> k; for (int i = 0; i < n; ++i) { k.push_back(vf_pick("name", 0, 2)); scan s = one(1000, 0.25, 12, 4); s.set_source_name(N[k[i]]); v.push_back(s); }
    bool all = true; for (int i : k) if (i) { if (want.empty()) want = N[i]; else if (want != N[i]) all = false; } observation_target t(v); if (all) vf_check(t._target_name == (want.empty() ? "unknown" : want), "name of the target"); else vf_check(t._target_name.find("Voyager") != std::string::npos && t._target_name.find("Mars") != std::string::npos, "every name is there"); vf_cover("end");
}
