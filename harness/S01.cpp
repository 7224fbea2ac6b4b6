// S01: hits through the binary hit format.
#include "capnp_files.hpp"
static void same_hit(const hit &a, const hit &b) {
    vf_check(a.start_freq_index == b.start_freq_index && a.rate_index == b.rate_index && a.time_span_steps == b.time_span_steps && a.binwidth == b.binwidth, "indices and widths"); vf_check(a.coarse_channel_number == b.coarse_channel_number, "coarse channel"); vf_check(a.start_freq_MHz == b.start_freq_MHz && a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec, "frequency and drift, exactly");
    vf_check(a.snr == b.snr && a.bandwidth == b.bandwidth, "signal to noise and bandwidth, exactly"); vf_check(a.power == (float)b.power && a.start_time_sec == (float)b.start_time_sec && a.duration_sec == (float)b.duration_sec, "power and times, in single precision");
}
ENTRY e_hit() { std::vector<hit> v; v.push_back(full_hit()); write_hits_to_capnp_file(v, "hits"); auto r = read_hits_from_capnp_file("hits"); vf_check(r.size() == 1, "one hit"); if (r.size() == 1) same_hit(r.front(), v[0]); vf_cover("end"); }
template <class C> static void listed(int n) { C v; for (int i = 0; i < n; ++i) v.push_back(numbered_hit()); write_hits_to_capnp_file(v, "hits"); vf_check(fakefs::fds.empty(), "the file is closed"); for (int read = 0; read < 2; ++read) { auto r = read_hits_from_capnp_file("hits"); bool all = r.size() == v.size(); vf_check(all, "all hits"); if (!all) return; auto p = r.begin(); for (auto &h : v) same_hit(*p++, h); } vf_check(fakefs::fds.empty(), "and closed again"); }
ENTRY e_lists() { int n = vf_pick("hits", 0, THOROUGH ? 8 : 4); if (vf_pick("container", 0, 1)) listed<std::list<hit>>(n); else listed<std::vector<hit>>(n); vf_cover("end"); } // in order
ENTRY e_again() { listed<std::vector<hit>>(2); listed<std::list<hit>>(vf_pick("hits", 0, 3)); vf_cover("end"); } // writing replaces what was there
ENTRY e_cut() { int n = vf_pick("hits", 1, 4); std::vector<hit> v; for (int i = 0; i < n; ++i) v.push_back(numbered_hit()); write_hits_to_capnp_file(v, "hits"); auto &f = fakefs::files["hits"]; f.messages.resize(vf_pick("left", 1, n)); f.partial = true; size_t whole = f.messages.size() - 1; auto r = read_hits_from_capnp_file("hits"); bool all = r.size() == whole; vf_check(all, "a file cut off inside a hit holds the hits before it"); if (all) { auto p = r.begin(); for (size_t i = 0; i < whole; ++i) same_hit(*p++, v[i]); } vf_cover("end"); }
ENTRY e_events() {
    int n = vf_pick("events", 0, 2); std::vector<event> v; for (int k = 0; k < n; ++k) { event e; int m = vf_pick("hits", 0, 2); for (int i = 0; i < m; ++i) e.hits.push_back(numbered_hit()); v.push_back(e); } write_events_to_file(v, "events"); auto r = read_events_from_file("events"); bool all = r.size() == v.size(); vf_check(all, "all events"); if (all) for (int k = 0; k < n; ++k) { bool each = r[k].hits.size() == v[k].hits.size(); vf_check(each, "all hits of an event"); if (each) { auto p = r[k].hits.begin(); for (auto &h : v[k].hits) same_hit(*p++, h); } } vf_cover("end");
}
// each value under its name in the schema, for programs that read the file without this library
ENTRY e_named() {
    std::vector<hit> v; int n = vf_pick("hits", 1, 2); for (int k = 0; k < n; ++k) v.push_back(numbered_hit()); bool events = vf_pick("as an event", 0, 1); if (events) { event e; for (auto &h : v) e.hits.push_back(h); write_events_to_file({e}, "named"); } else write_hits_to_capnp_file(v, "named");
    int fd = fakefs::open_("named", 0); auto named = [&](Signal::Reader r, const hit &h) {
        vf_check(r.getFrequency() == h.start_freq_MHz && r.getDriftRate() == h.drift_rate_Hz_per_sec && r.getSnr() == h.snr && r.getPower() == (float)h.power && r.getIncoherentPower() == (float)h.power, "frequency, drift rate, signal to noise and power by name"); vf_check(r.getBandwidth() == h.bandwidth && r.getBinwidth() == (float)h.binwidth && r.getStartTime() == (float)h.start_time_sec && r.getDurationSeconds() == (float)h.duration_sec, "width and times by name");
        vf_check((r.getIndex() == h.start_freq_index) & (r.getDriftIndex() == h.rate_index) & (r.getNumTimesteps() == h.time_span_steps) & (r.getDriftSteps() == h.time_span_steps) & (r.getCoarseChannel() == h.coarse_channel_number), "indices by name"); };
    if (events) { capnp::StreamFdMessageReader m(fd); auto l = m.getRoot<Event>().getHits(); bool all = l.size() == v.size(); vf_check(all, "an event holds its hits"); if (all) for (int k = 0; k < n; ++k) named(l[k].getSignal(), v[k]); }
    else for (int k = 0; k < n; ++k) { capnp::StreamFdMessageReader m(fd); named(m.getRoot<Hit>().getSignal(), v[k]); }
    vf_cover("end");
}
ENTRY e_missing() { std::vector<hit> v{numbered_hit()}; vf_check(throws([&] { read_hits_from_capnp_file("none"); }) && throws([&] { read_events_from_file("none"); }), "a file that is not there is rejected"); fakefs::full = true; vf_check(throws([&] { write_hits_to_capnp_file(v, "hits"); }) && throws([&] { write_events_to_file({}, "hits"); }), "and one that cannot be written"); vf_check(fakefs::fds.empty(), "nothing is left open"); vf_cover("end"); }
ENTRY e_many() { // more hits in a file, and in an event, than 8- or 16-bit numbers count
    int form = vf_pick("form", 0, 3); int64_t n = form == 0 || form == 3 ? 66000 : form == 1 ? 300 : 3000; std::vector<hit> v; v.reserve(n); for (int64_t i = 0; i < n; ++i) v.push_back(fixed_hit(i)); v[n - 1] = numbered_hit(); std::list<hit> r;
    if (form < 2) { write_hits_to_capnp_file(v, "hits"); auto q = read_hits_from_capnp_file("hits"); r.assign(q.begin(), q.end()); } else if (form == 3) { std::vector<event> e(n); for (int64_t i = 0; i < n; ++i) e[i].hits.push_back(v[i]); write_events_to_file(e, "events"); auto q = read_events_from_file("events"); for (auto &k : q) { vf_check(k.hits.size() == 1, "all hits of an event"); for (auto &h : k.hits) r.push_back(h); } } else { event e; for (auto &h : v) e.hits.push_back(h); write_events_to_file({e}, "events"); auto q = read_events_from_file("events"); bool one = q.size() == 1; vf_check(one, "all events"); if (!one) return; for (auto &h : q.front().hits) r.push_back(h); }
    bool all = (int64_t)r.size() == n; vf_check(all, "all hits"); if (!all) return; auto p = r.begin(); for (auto &h : v) same_hit(*p++, h); vf_cover("end");
}
