// S02: coarse channels, scans, targets and cadences through the binary format.
#include "capnp_files.hpp"
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/scan.hpp>
using namespace bliss;
struct Described { double fch1, foff, tsamp, tstart, ra, dec; int64_t nchans, ntsteps, telescope, number; std::string source; std::list<hit> hits; };
static const char *sources[] = {"", "B0329+54", "HIP 113357 ON", "\xce\xb1 Cen"};
static Described described(bool full, int k, int n_hits) {
    static int serial = 0; Described d; double s = ++serial; d.number = k; d.source = sources[full ? vf_pick("source", 0, 3) : serial % 4];
    if (full) { d.fch1 = number_(vf_fp64("fch1")); d.foff = number_(vf_fp64("foff")); d.tsamp = number_(vf_fp64("tsamp")); d.tstart = number_(vf_fp64("tstart")); d.ra = number_(vf_fp64("ra")); d.dec = number_(vf_fp64("dec")); }
    else { d.fch1 = 8000.5 + s / 3; d.foff = -2.7939677238464355e-06 * s; d.tsamp = 18.253611008 + s / 7; d.tstart = 57388.1 + s / 11; d.ra = s / 13; d.dec = -s / 17; }
    d.nchans = full ? vf_int("nchans", 0, 2147483647) : 64 + serial; d.ntsteps = full ? vf_int("ntsteps", 0, 2147483647) : 16 + serial; d.telescope = vf_int("telescope", -2147483648ll, 2147483647); if (full) d.number = vf_int("number", 0, 2147483647);
    for (int i = 0; i < n_hits; ++i) d.hits.push_back(numbered_hit()); return d;
}
static coarse_channel made(const Described &d) { coarse_channel c(d.fch1, d.foff, (int64_t)20, (int64_t)32, d.nchans, d.ntsteps, (int64_t)1, d.source, d.dec, d.ra, d.telescope, d.tsamp, d.tstart, (int64_t)1, 0.0, 0.0, d.number); c.set_hits(d.hits); return c; }
static bool same_hits(const std::list<hit> &a, const std::list<hit> &b) {
    if (a.size() != b.size()) return false; auto q = b.begin(); bool all = true;
    for (auto &h : a) { all &= (h.start_freq_index == q->start_freq_index) & (h.rate_index == q->rate_index) & (h.time_span_steps == q->time_span_steps) & (h.coarse_channel_number == q->coarse_channel_number) & (h.start_freq_MHz == q->start_freq_MHz) & (h.drift_rate_Hz_per_sec == q->drift_rate_Hz_per_sec) & (h.snr == q->snr) & (h.bandwidth == q->bandwidth) & (h.power == (float)q->power) & (h.start_time_sec == (float)q->start_time_sec) & (h.duration_sec == (float)q->duration_sec) & (h.binwidth == q->binwidth); ++q; }
    return all;
}
static void same_channel(const coarse_channel &c, const Described &d) {
    vf_check(c.fch1() == d.fch1 && c.foff() == d.foff, "frequencies"); vf_check(c.tsamp() == d.tsamp && c.tstart() == d.tstart, "times"); vf_check(c.src_raj() == d.ra && c.src_dej() == d.dec, "right ascension and declination"); vf_check(c.source_name() == d.source, "source");
    vf_check((c.nchans() == d.nchans) & (c.ntsteps() == d.ntsteps), "extent"); vf_check(c.telescope_id() == d.telescope, "telescope"); vf_check(c._coarse_channel_number == d.number, "number of the channel"); vf_check(same_hits(c.hits(), d.hits), "hits");
}
ENTRY e_channel() { auto d = described(true, 0, vf_pick("hits", 0, 1)); write_coarse_channel_hits_to_capnp_file(made(d), "cc"); same_channel(read_coarse_channel_hits_from_capnp_file("cc"), d); vf_check(fakefs::fds.empty(), "files are closed"); vf_cover("end"); }
ENTRY e_channel_hits() { auto d = described(false, 3, vf_pick("hits", 0, THOROUGH ? 8 : 4)); write_coarse_channel_hits_to_capnp_file(made(d), "cc"); for (int k = 0; k < 2; ++k) same_channel(read_coarse_channel_hits_from_capnp_file("cc"), d); vf_cover("end"); }
struct Scanned { scan s; std::vector<Described> d; };
static Scanned scanned(int n, int max_hits, bool full = false) { // the channels of a scan differ in fch1 and hits only
    Scanned r{scan(), {}}; std::map<int, std::shared_ptr<coarse_channel>> m; for (int k = 0; k < n; ++k) { auto d = described(full && !k, k, vf_pick("hits", 0, max_hits)); if (k) { auto h = d.hits; double f = d.fch1; d = r.d[0]; d.fch1 = f; d.hits = h; } d.number = k; r.d.push_back(d); m[k] = std::make_shared<coarse_channel>(made(d)); }
    r.s = scan(m); return r;
}
static void same_scan(scan s, const Scanned &o, int from, int n) {
    vf_check(s.get_number_coarse_channels() == n, "coarse channels"); scan w = o.s; vf_check(s.tsamp() == w.tsamp() && s.tstart() == w.tstart() && s.foff() == w.foff(), "times and channel width of a scan"); vf_check(s.src_raj() == w.src_raj() && s.src_dej() == w.src_dej() && s.source_name() == w.source_name() && s.telescope_id() == w.telescope_id(), "source of a scan"); vf_check(s.ntsteps() == w.ntsteps(), "spectra of a scan");
    for (int k = 0; k < n; ++k) same_channel(*s.read_coarse_channel(k), o.d[from + k]);
}
ENTRY e_scan() { auto o = scanned(vf_pick("channels", 1, 3), 2); int n = o.d.size(); double f = 1420.25; int64_t c = vf_int("nchans", 0, 2147483647); o.s.set_fch1(f); o.s.set_nchans(c); write_scan_hits_to_capnp_file(o.s, "scan"); auto s = read_scan_hits_from_capnp_file("scan"); vf_check(s.fch1() == f, "frequency of a scan"); vf_check(s.nchans() == c, "channels of a scan"); same_scan(s, o, 0, n); size_t all = 0; for (auto &d : o.d) all += d.hits.size(); vf_check(s.hits().size() == all, "hits of a scan"); vf_cover("end"); }
ENTRY e_scan_values() { auto o = scanned(1, 0, true); write_scan_hits_to_capnp_file(o.s, "scan"); auto s = read_scan_hits_from_capnp_file("scan"); vf_check(s.fch1() == o.s.fch1() && s.nchans() == o.s.nchans(), "first frequency and channels of a scan"); same_scan(s, o, 0, 1); vf_cover("end"); }
ENTRY e_slice() { auto o = scanned(3, 1); int a = vf_pick("from", 0, 2), n = vf_pick("count", 1, 3 - a); auto w = o.s.slice_scan_channels(a, n); write_scan_hits_to_capnp_file(w, "scan"); auto s = read_scan_hits_from_capnp_file("scan"); vf_check(s.fch1() == w.fch1() && s.nchans() == w.nchans(), "a part of a scan starts where it does"); same_scan(s, o, a, n); vf_cover("end"); }
ENTRY e_pipeline() { // what is written went through the transforms of the scan
    auto o = scanned(2, 1); auto h = numbered_hit(); o.s.add_coarse_channel_transform([h](coarse_channel c) { auto l = c.hits(); l.push_back(h); c.set_hits(l); return c; }); for (auto &d : o.d) d.hits.push_back(h);
    write_scan_hits_to_capnp_file(o.s, "scan"); same_scan(read_scan_hits_from_capnp_file("scan"), o, 0, 2); vf_cover("end");
}
ENTRY e_target() {
    int n = vf_pick("scans", 0, 2); std::vector<Scanned> o; observation_target t; for (int k = 0; k < n; ++k) { o.push_back(scanned(vf_pick("channels", 1, 2), 1)); t._scans.push_back(o.back().s); } write_observation_target_hits_to_capnp_files(t, "target"); auto r = read_observation_target_hits_from_capnp_files("target");
    bool all = (int)r._scans.size() == n; vf_check(all, "all scans of a target"); if (all) for (int k = 0; k < n; ++k) { same_scan(r._scans[k], o[k], 0, o[k].d.size()); vf_check(r._scans[k].fch1() == o[k].s.fch1() && r._scans[k].nchans() == o[k].s.nchans(), "scans of a target"); } vf_cover("end");
}
ENTRY e_cadence() {
    int n = vf_pick("targets", 0, THOROUGH ? 3 : 2); std::vector<std::vector<Scanned>> o(n); cadence c; for (int k = 0; k < n; ++k) { observation_target t; int m = vf_pick("scans", 0, 2); for (int j = 0; j < m; ++j) { o[k].push_back(scanned(1, 1)); t._scans.push_back(o[k].back().s); } c._observations.push_back(t); }
    write_cadence_hits_to_capnp_files(c, "cadence"); auto r = read_cadence_hits_from_capnp_files("cadence"); bool all = (int)r._observations.size() == n; vf_check(all, "all targets");
    if (all) for (int k = 0; k < n; ++k) { auto &s = r._observations[k]._scans; bool each = s.size() == o[k].size(); vf_check(each, "all scans"); if (each) for (size_t j = 0; j < s.size(); ++j) same_scan(s[j], o[k][j], 0, 1); } vf_check(fakefs::fds.empty(), "files are closed"); vf_cover("end");
}
ENTRY e_named() { // each value under its name in the schema
    auto o = scanned(vf_pick("channels", 1, 2), 1); auto &d = o.d[0]; double f = 1420.25; o.s.set_fch1(f); write_scan_hits_to_capnp_file(o.s, "named"); int fd = fakefs::open_("named", 0); capnp::StreamFdMessageReader m(fd); auto s = m.getRoot<Scan>(); auto w = s.getMd();
    auto common = [&](Filterbank::Reader r) { vf_check(r.getFoff() == d.foff && r.getTsamp() == d.tsamp && r.getTstart() == d.tstart, "times and width by name"); vf_check(r.getRa() == d.ra && r.getDec() == d.dec && r.getSourceName().cStr() == d.source && r.getTelescopeId() == d.telescope, "source by name"); vf_check(r.getNumTimesteps() == d.ntsteps, "spectra by name"); };
    common(w); vf_check(w.getFch1() == f && w.getNumChannels() == o.s.nchans(), "extent of the scan by name"); auto l = s.getCoarseChannels(); bool all = l.size() == o.d.size(); vf_check(all, "coarse channels"); if (!all) return;
    for (unsigned k = 0; k < l.size(); ++k) { auto r = l[k].getMd(); common(r); vf_check(r.getFch1() == o.d[k].fch1 && r.getNumChannels() == d.nchans && r.getCoarseChannel() == (int)k, "extent of a channel by name"); auto h = l[k].getHits(); bool each = h.size() == o.d[k].hits.size(); vf_check(each, "hits of a channel"); if (each && h.size()) vf_check(h[0].getFrequency() == o.d[k].hits.front().start_freq_MHz && h[0].getSnr() == o.d[k].hits.front().snr, "hits of a channel by name"); }
    vf_cover("end");
}
ENTRY e_refused() { // no hits to write, no file, no place to write to, an empty or cut off file
    Described d = described(false, 0, 1); auto c = made(d); coarse_channel bare(d.fch1, d.foff, (int64_t)20, (int64_t)32, d.nchans, d.ntsteps, (int64_t)1, d.source, d.dec, d.ra, d.telescope, d.tsamp, d.tstart, (int64_t)1, 0.0, 0.0);
    vf_check(throws([&] { write_coarse_channel_hits_to_capnp_file(bare, "bare"); }), "a channel that was not searched is rejected"); vf_check(throws([&] { read_coarse_channel_hits_from_capnp_file("none"); }) && throws([&] { read_scan_hits_from_capnp_file("none"); }) && throws([&] { read_observation_target_hits_from_capnp_files("none"); }) && throws([&] { read_cadence_hits_from_capnp_files("none"); }), "a file that is not there is rejected");
    write_coarse_channel_hits_to_capnp_file(c, "cc"); fakefs::files["cc"].partial = true; fakefs::files["empty"]; for (const char *f : {"cc", "empty"}) vf_check(throws([&] { read_coarse_channel_hits_from_capnp_file(f); }) && throws([&] { read_scan_hits_from_capnp_file(f); }) && throws([&] { read_observation_target_hits_from_capnp_files(f); }) && throws([&] { read_cadence_hits_from_capnp_files(f); }), "a file without a whole message is rejected");
    fakefs::full = true; vf_check(throws([&] { write_coarse_channel_hits_to_capnp_file(c, "cc"); }), "and a place that cannot be written"); vf_check(fakefs::fds.empty(), "nothing is left open"); vf_cover("end");
}
ENTRY e_many() { // more hits in a channel, or channels in a scan, than 8 bits count
    bool channels = vf_pick("channels", 0, 1); if (!channels) { auto d = described(false, 3, 0); for (int k = 0; k < 3000; ++k) d.hits.push_back(fixed_hit(k)); write_coarse_channel_hits_to_capnp_file(made(d), "cc"); same_channel(read_coarse_channel_hits_from_capnp_file("cc"), d); vf_cover("end"); return; }
    Scanned r{scan(), {}}; std::map<int, std::shared_ptr<coarse_channel>> m; for (int k = 0; k < 300; ++k) { auto d = k ? r.d[0] : described(false, 0, 0); d.fch1 += k; d.hits.clear(); if (k % 3) d.hits.push_back(fixed_hit(k)); d.number = k; r.d.push_back(d); m[k] = std::make_shared<coarse_channel>(made(d)); } r.s = scan(m);
    write_scan_hits_to_capnp_file(r.s, "scan"); same_scan(read_scan_hits_from_capnp_file("scan"), r, 0, 300); vf_cover("end");
}
