// K01: bliss_find_hits as a program; its steps are stand-ins that record what they are asked to do.
#include "args.hpp"
#include <core/cadence.hpp>
#include <estimators/noise_estimate.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <file_types/hits_file.hpp>
#include <set>
using namespace bliss;
int find_hits_main(int, char **) __asm__("find_hits_main");
enum Step { NORMALIZE, EQUALIZE, ROLLOFF, KURTOSIS, SIGMACLIP, NOISE, INTEGRATE, SEARCH_, FILTER };
static std::vector<int> steps; static float rolloff, sk_low, sk_high, sk_d, clip_low, clip_high; static int clip_iters; static noise_power_estimate_options noise_o; static integrate_drifts_options drift_o; static hit_search_options search_o; static filter_options filter_o; static std::string taps; static int elements_of_taps = 0;
struct Written { std::string from, path, format; int channels; int64_t first; double passed; int device; }; static std::vector<Written> written; static int fail_at = -1;
static double mark(int s) { return 1 << s; } // every step adds its mark to the start time of the scans it returns
static observation_target done(observation_target t, int s) { steps.push_back(s); for (auto &sc : t._scans) sc.set_tstart(sc.tstart() + mark(s)); return t; }
observation_target bliss::normalize(observation_target t) { return done(t, NORMALIZE); }
observation_target bliss::equalize_passband_filter(observation_target t, std::string_view p, bland::ndarray::datatype d) { taps = std::string(p); elements_of_taps = d == bland::ndarray::datatype::float32; return done(t, EQUALIZE); }
observation_target bliss::flag_filter_rolloff(observation_target t, float w) { rolloff = w; return done(t, ROLLOFF); }
observation_target bliss::flag_spectral_kurtosis(observation_target t, float l, float h, float d) { sk_low = l; sk_high = h; sk_d = d; return done(t, KURTOSIS); }
observation_target bliss::flag_sigmaclip(observation_target t, int n, float l, float h) { clip_iters = n; clip_low = l; clip_high = h; return done(t, SIGMACLIP); }
observation_target bliss::estimate_noise_power(observation_target t, noise_power_estimate_options o) { noise_o = o; return done(t, NOISE); }
observation_target bliss::integrate_drifts(observation_target t, integrate_drifts_options o) { drift_o = o; return done(t, INTEGRATE); }
observation_target bliss::hit_search(observation_target t, hit_search_options o) { search_o = o; return done(t, SEARCH_); }
observation_target bliss::filter_hits(observation_target t, filter_options o) { filter_o = o; return done(t, FILTER); }
void bliss::write_scan_hits_to_file(scan s, std::string_view p, std::string f) {
    if (fail_at == (int)written.size()) throw std::runtime_error("disk full"); auto cc = s.read_coarse_channel(0); auto d = s.device();
    written.push_back({s.get_file_path(), std::string(p), f, s.get_number_coarse_channels(), cc->_coarse_channel_number, s.tstart(), (int)d.device_type});
}
static Header hd; static std::vector<std::string> files;
static void inputs(std::vector<std::string> f) { hd = Header(); hd.nchans = 12; hd.T = 2; files = f; for (auto &x : f) { file_of(hd, true, x); line.push_back(x); } }
struct Want { int first = 0, count = 1, per_coarse = 12; bool desmear = true; int64_t low = -500, high = 500, step = 1; float rolloff = .25f, sk_low = .25f, sk_high = 50, sk_d = 2, clip_low = 3, clip_high = 4; int iters = 5; hit_search_methods method = hit_search_methods::CONNECTED_COMPONENTS; float snr = 10; int distance = 7; std::string taps, out, format; };
static std::string base(const std::string &p) { auto s = p.rfind('/'); return s == p.npos ? p : p.substr(s + 1); }
static std::string with(const std::string &p, const std::string &ext) { auto d = p.rfind('.'); return (d == p.npos || d == 0 ? p : p.substr(0, d)) + ext; }
static void ran(const Want &w) {
    bool e = !w.taps.empty(); std::vector<int> order = {NORMALIZE, e ? EQUALIZE : ROLLOFF, KURTOSIS, SIGMACLIP, NOISE, INTEGRATE, SEARCH_, FILTER}; vf_check(steps == order, "every step once, in order"); double passed = hd.tstart; for (int s : order) passed += mark(s);
    if (e) vf_check(taps == w.taps && elements_of_taps, "response of the channelizer"); else vf_check(rolloff == w.rolloff, "rolloff"); vf_check((sk_low == w.sk_low) & (sk_high == w.sk_high) & (sk_d == w.sk_d), "spectral kurtosis"); vf_check((clip_iters == w.iters) & (clip_low == w.clip_low) & (clip_high == w.clip_high), "sigma clipping");
    vf_check(noise_o.estimator_method == noise_power_estimator::STDDEV && noise_o.masked_estimate, "noise of unflagged samples"); vf_check(drift_o.desmear == w.desmear && (drift_o.low_rate == w.low) & (drift_o.high_rate == w.high) & (drift_o.rate_step_size == w.step), "drift rates"); vf_check(search_o.method == w.method && (search_o.snr_threshold == w.snr) & (search_o.neighbor_l1_dist == w.distance), "hit search"); vf_check(filter_o.filter_zero_drift, "hits that do not drift are left out");
    bool out = w.out != "-" && w.out != "stdout"; bool all = written.size() == (out ? files.size() : 0); vf_check(all, "hits of every file are written once"); if (!all || !out) return; std::set<std::string> paths;
    for (size_t k = 0; k < files.size(); ++k) {
        auto &x = written[k]; vf_check(x.from == files[k], "in the order of the files"); paths.insert(x.path); if (!k) vf_check(x.path == (w.out.empty() ? with(base(files[0]), ".capnp") : w.out), "file the hits of the first are written to"); if (w.out.empty() && with(base(files[k]), "") != with(base(files[0]), "")) vf_check(x.path == with(base(files[k]), ".capnp"), "named after its input");
        vf_check(x.format == (w.out.empty() ? "capnp" : w.format), "format"); vf_check(x.channels == w.count && x.first == w.first, "coarse channels searched"); vf_close(x.passed, passed, 1e-6, "what is written went through every step"); vf_check(x.device == (int)bland::ndarray::dev::cpu.device_type, "device");
    }
    vf_check(paths.size() == files.size(), "every file has its own output");
}
static Want w;
static void i64(const char *option, int64_t &v, int64_t lo = -2147483648ll, int64_t hi = 2147483647) { v = vf_int(option, lo, hi); line.push_back(option); line.push_back(given_int(v)); }
static void i32(const char *option, int &v) { int64_t x; i64(option, x); v = (int)x; }
static void f32(const char *option, float &v) { v = vf_realf(option, -1000, 1000); line.push_back(option); line.push_back(given_real(v)); }
static const int OPTIONS = 21;
static void option(int k, int form = 0) { // the output, whose format is optional, comes last
    switch (k) {
    case 0: w.first = vf_pick("first", 0, 1); line.push_back(form ? "-c" : "--coarse-channel"); line.push_back(given_int(w.first)); break;
    case 1: w.count = vf_pick("count", 1, w.per_coarse == 12 ? 1 : 2); line.push_back("--number-coarse"); line.push_back(given_int(w.count)); break;
    case 2: w.per_coarse = 4; line.push_back("--nchan-per-coarse"); line.push_back("4"); break;
    case 3: w.taps = "dir/response.f32"; line.push_back(form ? "-e" : "--equalizer-channel"); line.push_back(w.taps); break;
    case 4: w.desmear = true; line.push_back("--desmear"); break;
    case 5: w.desmear = false; line.push_back("--nodesmear"); break;
    case 6: i64(form ? "-m" : "--min-rate", w.low); break;
    case 7: i64(form ? "-rs" : "--rate-step", w.step); break;
    case 8: i64(form ? "-M" : "--max-rate", w.high); break;
    case 9: f32("--filter-rolloff", w.rolloff); break;
    case 10: i32("--sigmaclip-iters", w.iters); break;
    case 11: f32("--sigmaclip-low", w.clip_low); break;
    case 12: f32("--sigmaclip-high", w.clip_high); break;
    case 13: f32("--sk-low", w.sk_low); break;
    case 14: f32("--sk-high", w.sk_high); break;
    case 15: f32("--sk-d", w.sk_d); break;
    case 16: w.method = hit_search_methods::LOCAL_MAXIMA; line.push_back("--local-maxima"); break;
    case 17: w.method = hit_search_methods::CONNECTED_COMPONENTS; line.push_back("--connected-components"); break;
    case 18: f32(form ? "-s" : "--snr", w.snr); break;
    case 19: i32("--distance", w.distance); break;
    case 20: { static const char *outs[][2] = {{"out/hits.dat", ""}, {"hits", "dat"}, {"x.cp", "capnp"}, {"stdout", ""}, {"-", ""}}; int o = vf_pick("output", 0, 4); w.out = outs[o][0]; w.format = outs[o][1]; line.push_back(form ? "-o" : "--output"); line.push_back(w.out); if (!w.format.empty()) line.push_back(w.format); break; }
    }
}
static void cpu() { line.push_back("-d"); line.push_back("cpu"); }
static int start() { return run(find_hits_main, "bliss_find_hits"); }
ENTRY e_defaults() { inputs({"/data/on.1.h5"}); cpu(); vf_check(start() == 0, "success"); ran(w); vf_cover("end"); }
ENTRY e_each() { inputs({"/data/on.h5"}); cpu(); int k = vf_pick("option", 0, OPTIONS - 1); if (k == 0) option(2); option(k, vf_pick("form", 0, 1)); vf_check(start() == 0, "success"); ran(w); vf_cover("end"); }
ENTRY e_pairs() { inputs({"/data/on.h5"}); cpu(); int k = vf_pick("option", 2, OPTIONS - 1), j = THOROUGH ? vf_pick("other", 2, OPTIONS - 1) : (k - 2 + 1 + vf_pick("offset", 0, 1) * 6) % (OPTIONS - 2) + 2; if (j == k || (k == 4 && j == 5) || (k == 5 && j == 4) || (k == 16 && j == 17) || (k == 17 && j == 16)) { vf_cover("end"); return; } if (k == 20) std::swap(k, j); option(k); option(j); vf_check(start() == 0, "success"); ran(w); vf_cover("end"); }
ENTRY e_all() { // all of them in two orders and both forms, the output last
    inputs({"a.h5", "b.h5"}); int mirror = vf_pick("order", 0, 1); if (mirror) cpu(); option(2); for (int i = 0; i < OPTIONS - 1; ++i) { int k = mirror ? OPTIONS - 2 - i : i; if (k == 4 || k == 17 || k == 2) continue; option(k, mirror); } if (!mirror) cpu(); option(20, mirror); vf_check(start() == 0, "success"); ran(w); vf_cover("end");
}
ENTRY e_negative() { inputs({"a.h5"}); cpu(); w.low = -250; w.high = -7; w.clip_low = -1.5f; for (const char *x : {"-m", "-250", "-M", "-7", "--sigmaclip-low", "-1.5"}) line.push_back(x); vf_check(start() == 0, "success"); ran(w); vf_cover("end"); }
ENTRY e_files() { // every input has its own output
    static const std::vector<std::vector<std::string>> sets = {{"/data/on.h5", "/data/off.h5"}, {"a.h5", "b.h5", "c.h5"}, {"x/a.h5", "y/a.h5"}, {"a.h5", "a.fil.h5", "a"}, {"x/a.h5", "y/a.h5", "z/b.h5", "z/a.h5"}}; inputs(sets[vf_pick("set", 0, 4)]); cpu(); if (vf_pick("given", 0, 1)) option(20); vf_check(start() == 0, "success"); ran(w); vf_cover("end");
}
ENTRY e_refused() { // nothing runs on a command line that is not understood, and a failure is reported
    int k = vf_pick("case", 0, 3); if (k == 0) { line.push_back("--help"); start(); vf_check(steps.empty() && written.empty(), "help only"); }
    if (k == 1) { inputs({"a.h5"}); cpu(); line.push_back("--no-such-option"); try { start(); } catch (...) {} vf_check(steps.empty() && written.empty(), "unknown options are refused"); }
    if (k == 2) { inputs({"a.h5", "b.h5"}); cpu(); fail_at = vf_pick("file", 0, 1); vf_check(start() != 0, "hits that cannot be written are a failure"); }
    if (k == 3) { files = {"none.h5"}; line.push_back("none.h5"); cpu(); bool failed = false; try { failed = start() != 0; } catch (...) { failed = true; } vf_check(failed && steps.empty(), "a file that is not there is a failure"); }
    vf_cover("end");
}
