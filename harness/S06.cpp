// S06: listings of hits in turboSETI's text format, over the model of text formatting in fakefmt and of files below.
#include "fil.hpp"
#include <fmt/core.h>
#include <file_types/dat_file.hpp>
#include <file_types/hits_file.hpp>
#include <file_types/cpnp_files.hpp>
#include <map>
#include <cerrno>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace bliss;
static std::map<std::string, std::string> disk; static std::map<int, std::string> fds; static int chunk = 0; static long space = -1; static int writes = 0; static std::string capnp_path; static int capnp_writes = 0, capnp_reads = 0; FRESH(disk); FRESH(fds); FRESH(chunk); FRESH(space); FRESH(writes); FRESH(capnp_path); FRESH(capnp_writes); FRESH(capnp_reads); FRESH_IN(fmt, numbers);
extern "C" {
__attribute__((used)) int open(const char *p, int flags, ...) { if ((flags & O_ACCMODE) == O_RDONLY) { if (!disk.count(p)) return -1; } else { if (!disk.count(p) && !(flags & O_CREAT)) return -1; if (flags & O_TRUNC) disk[p].clear(); else disk[p]; } static int next = 100; fds[++next] = p; return next; }
__attribute__((used)) int close(int fd) { return fds.erase(fd) ? 0 : -1; }
__attribute__((used)) int stat(const char *p, struct stat *) { return disk.count(p) ? 0 : -1; }
__attribute__((used)) ssize_t write(int fd, const void *b, size_t n) {
    if (fd < 100) return syscall(SYS_write, fd, b, n);
    if (!fds.count(fd)) return -1; ++writes; if (chunk && n > (size_t)chunk) n = chunk;
    if (space >= 0) { if (n && !space) { errno = ENOSPC; return -1; } if (n > (size_t)space) n = space; space -= n; }
    disk[fds[fd]].append((const char *)b, n); return n;
}
}
void bliss::write_scan_hits_to_capnp_file(scan, std::string_view p) { ++capnp_writes; capnp_path = std::string(p); }
scan bliss::read_scan_hits_from_capnp_file(std::string_view p) { ++capnp_reads; capnp_path = std::string(p); return scan(); }
std::list<hit> bliss::read_hits_from_capnp_file(std::string_view p) { ++capnp_reads; capnp_path = std::string(p); return {}; }
using Lines = std::vector<std::string>;
static Lines split(const std::string &s, char c) { Lines r(1); for (char x : s) if (x == c) r.emplace_back(); else r.back() += x; return r; }
static std::string stripped(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; return s.substr(i); }
static Lines words(const std::string &s) { Lines r; std::string w; for (char c : s + " ") if (c == ' ' || c == '\t') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; return r; }
static const fmt::number *mark(const std::string &s) { // a cell that is one number
    if (s.size() < 3 || s[0] != 1 || s.back() != 2) return nullptr; size_t k = 0; for (size_t i = 1; i + 1 < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return nullptr; k = 10 * k + (s[i] - '0'); } return k < fmt::numbers.size() ? &fmt::numbers[k] : nullptr;
}
static int decimals(const fmt::number &n) { // digits after the point (99: all of them), -1 when not in plain decimal notation
    auto &s = n.spec; char t = s.empty() ? 0 : s.back(); if (t && t != 'f' && t != 'F' && !(t >= '0' && t <= '9')) return -1; auto p = s.find('.'); if (p != s.npos) { int d = 0; for (size_t i = p + 1; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) d = 10 * d + s[i] - '0'; return t == 'f' || t == 'F' ? d : -1; } return t == 'f' || t == 'F' ? 6 : 99;
}
static bool plain_integer(const fmt::number &n) { char t = n.spec.empty() ? 0 : n.spec.back(); return !n.is_float && (!t || t == 'd' || (t >= '0' && t <= '9')); }
static void real_cell(const std::string &s, double want, int digits, const char *label) { auto n = mark(s); bool ok = n && (n->is_float ? decimals(*n) >= digits : plain_integer(*n)); vf_check(ok, label); if (!ok) return; double v = n->is_float ? n->f : (double)n->i; vf_close(v, want, 1e-3 * std::pow(10, -digits), label); }
static void int_cell(const std::string &s, int64_t want, const char *label) { auto n = mark(s); bool ok = n && plain_integer(*n); vf_check(ok, label); if (ok) vf_check(n->i == want, label); }
static int find(const Lines &l, const std::string &label) { for (size_t i = 0; i < l.size(); ++i) if (l[i].find(label) != std::string::npos) return i; return -1; }
static std::string after(const Lines &l, const std::string &label, bool word) { int k = find(l, label); if (k < 0) return "?"; auto r = stripped(l[k].substr(l[k].find(label) + label.size())); return word ? (words(r).empty() ? "" : words(r)[0]) : r; }
static const char *const columns[] = {"Top_Hit_#", "Drift_Rate", "SNR", "Uncorrected_Frequency", "Corrected_Frequency", "Index", "freq_start", "freq_end", "SEFD", "SEFD_freq", "Coarse_Channel_Number", "Full_number_of_hits"};
static hit listed() {
    hit h; static int k = 0; ++k; h.start_freq_index = vf_int("index", 0, 1 << 28); h.rate_index = 7 * k; h.time_span_steps = 16; h.binwidth = vf_int("width", 0, 1 << 20); h.coarse_channel_number = vf_int("coarse channel", 0, 1 << 20);
    h.start_freq_MHz = vf_real("frequency", 0, 100000); h.drift_rate_Hz_per_sec = vf_real("drift", -1000, 1000); h.duration_sec = 300 + 1.5 * k; h.start_time_sec = 5e9 + k; h.power = 1e6 * k; h.snr = vf_realf("snr", -1000, 1e6); h.bandwidth = 2 * k; return h;
}
struct Described { double tstart, ra, dec, tsamp, foff; int64_t ntsteps; std::string source; };
static Described described() { Described d; d.tstart = vf_real("tstart", 40000, 80000); d.ra = 10.5125; d.dec = -20.75; d.tsamp = vf_real("tsamp", 0, 100); d.foff = vf_real("foff", -10, 10); d.ntsteps = 16; d.source = "HIP 113357"; return d; }
static std::shared_ptr<coarse_channel> channel_of(const Described &d, int k) { return std::make_shared<coarse_channel>(1000. + k, d.foff, (int64_t)20, (int64_t)32, (int64_t)64, d.ntsteps, (int64_t)1, d.source, d.dec, d.ra, (int64_t)6, d.tsamp, d.tstart, (int64_t)1, 0.0, 0.0, (int64_t)k); }
static scan scan_of(const Described &d, const std::vector<std::list<hit>> &hits) { std::map<int, std::shared_ptr<coarse_channel>> m; for (size_t k = 0; k < hits.size(); ++k) { m[k] = channel_of(d, k); m[k]->set_hits(hits[k]); } return scan(m); }
static Lines rows(const Lines &l) { Lines r; for (auto &x : l) if (!x.empty() && x[0] != '#') r.push_back(x); return r; }
static void row(const std::string &line, int number, const hit &h) {
    auto c = split(line, '\t'); bool n = c.size() == 12; vf_check(n, "a hit fills every column"); if (!n) return;
    double end = h.start_freq_MHz + h.duration_sec * h.drift_rate_Hz_per_sec / 1e6, mid = (h.start_freq_MHz + end) / 2;
    int_cell(c[0], number, "hits are numbered from 1"); real_cell(c[1], h.drift_rate_Hz_per_sec, 4, "drift rate"); real_cell(c[2], h.snr, 2, "signal to noise ratio"); real_cell(c[3], mid, 6, "frequency midway"); real_cell(c[4], mid, 6, "frequency midway (corrected)"); int_cell(c[5], h.start_freq_index, "index");
    real_cell(c[6], h.start_freq_MHz, 6, "frequency at the start"); real_cell(c[7], end, 6, "frequency at the end"); real_cell(c[8], 0, 1, "SEFD"); real_cell(c[9], 0, 1, "SEFD frequency"); int_cell(c[10], h.coarse_channel_number, "coarse channel"); int_cell(c[11], h.binwidth, "width");
}
static void listing(const std::string &name, const std::vector<std::list<hit>> &hits) {
    auto &text = disk[name]; bool ended = !text.empty() && text.back() == '\n'; vf_check(ended, "the listing ends with a whole line"); auto l = split(text, '\n'); auto r = rows(l); std::vector<hit> all; for (auto &h : hits) all.insert(all.end(), h.begin(), h.end());
    bool n = r.size() == all.size(); vf_check(n, "one line for every hit"); if (n) for (size_t k = 0; k < all.size(); ++k) row(r[k], k + 1, all[k]);
    int k = find(l, "Top_Hit_#"); Lines names; if (k >= 0) names = words(l[k]); bool named = names.size() == 13 && names[0] == "#"; if (named) for (int i = 0; i < 12; ++i) named = named && names[i + 1] == columns[i]; vf_check(named, "the columns are named");
}
static void number_of(const std::string &s, double want, const char *label) { real_cell(s, want, 6, label); }
static bool sexagesimal(std::string s, const char *units, double &v) { // digits and units; v gets the value
    double w = 1, sum = 0; for (int k = 0; k < 3; ++k) { auto p = s.find(units[k]); if (p == s.npos) return false; auto n = mark(s.substr(0, p)); if (!n) return false; if (k < 2) { if (!plain_integer(*n) || n->i < 0 || (k && n->i >= 60)) return false; sum += w * (double)n->i; } else { if (!n->is_float || decimals(*n) < 2 || !(n->f >= 0) || !(n->f < 60)) return false; sum += w * n->f; } w /= 60; s = s.substr(p + 1); } v = sum; return s.empty();
}
static void header(const std::string &name, const Described &d, const std::string &file, bool values = true) {
    auto l = split(disk[name], '\n'); vf_check(after(l, "File ID:", false) == file, "file the hits are from"); vf_check(after(l, "Source:", false) == d.source, "source");
    number_of(after(l, "MJD:", true), d.tstart, "time of the start"); number_of(after(l, "DELTAT:", true), d.tsamp, "time resolution"); number_of(after(l, "DELTAF(Hz):", true), d.foff * 1e6, "frequency resolution in Hz"); auto len = mark(after(l, "obs_length:", true)); bool ok = len && len->is_float && decimals(*len) >= 2; vf_check(ok, "length"); if (ok) vf_close(len->f, d.tsamp * d.ntsteps, 1e-5, "length of the observation");
    double ra = -1, dec = -1; auto r = after(l, "RA:", true), e = after(l, "DEC:", true); bool form = sexagesimal(r, "hms", ra); vf_check(form, "right ascension in hours, minutes and seconds"); if (form) vf_close(ra, d.ra, 1e-6, "right ascension"); bool sign = e.size() && (e[0] == '+' || e[0] == '-'); bool eform = sign && sexagesimal(e.substr(1), "dms", dec); vf_check(eform, "declination in degrees, minutes and seconds"); if (eform) { double signed_ = e[0] == '-' ? -dec : dec; vf_close(signed_, d.dec, 1e-6, "declination"); }
    for (auto &x : l) if (!x.empty() && x[0] == '#') { auto w = words(x); vf_check(w.size() >= 2, "lines of the heading are complete"); }
}
ENTRY e_hits() { // any values of the hits of up to 3 channels
    auto d = described(); int n = vf_pick("channels", 1, THOROUGH ? 3 : 2); std::vector<std::list<hit>> h(n); for (auto &c : h) for (int k = vf_pick("hits", 0, 2); k; --k) c.push_back(listed()); auto s = scan_of(d, h); write_scan_hits_to_dat_file(s, "hits.dat"); listing("hits.dat", h); header("hits.dat", d, "n/a"); vf_check(fds.empty() && disk.size() == 1, "one file, closed"); vf_cover("end");
}
ENTRY e_many() { auto d = described(); std::vector<std::list<hit>> h(1); for (int k = THOROUGH ? 130 : 12; k; --k) h[0].push_back(listed()); hit last = h[0].back(); for (int k = 0; k < 300; ++k) { last.start_freq_index = 100000 + k; last.start_freq_MHz = 1000 + k / 64.; last.drift_rate_Hz_per_sec = k / 8. - 20; last.snr = 10 + k; last.binwidth = 1 + k; last.coarse_channel_number = k; h[0].push_back(last); } write_scan_hits_to_dat_file(scan_of(d, h), "hits.dat"); listing("hits.dat", h); vf_cover("end"); }
ENTRY e_header() { // any values of the description
    auto d = described(); static const char *names[] = {"", "B0329+54", "HIP 113357 ON"}; d.source = names[vf_pick("source", 0, 2)]; d.ntsteps = vf_pick("steps", 0, 2) * 17 + 1; write_scan_hits_to_dat_file(scan_of(d, {{}}), "x"); header("x", d, "n/a"); listing("x", {{}}); vf_cover("end");
}
ENTRY e_position() { // every position on the sky, by minutes of arc
    auto d = described(); int h = vf_pick("hours", 0, 23), m = vf_pick("minutes", 0, 3) * 59 / 3; double s = vf_real("rest", 0, 1. / 60); vf_assume(s < 1. / 60); d.ra = h + m / 60. + s; vf_assume((s > 1e-9) & (s < 1. / 60 - 1e-9)); write_scan_hits_to_dat_file(scan_of(d, {{}}), "x"); header("x", d, "n/a"); vf_cover("end");
}
ENTRY e_declination() {
    auto d = described(); static const int degs[] = {0, 1, 9, 33, 59, 60, 89}; int g = degs[vf_pick("degrees", 0, 6)], m = vf_pick("minutes", 0, 3) * 59 / 3; double s = vf_real("rest", 0, 1. / 60); vf_assume((s > 1e-9) & (s < 1. / 60 - 1e-9)); d.dec = g + m / 60. + s; if (vf_pick("south", 0, 1)) d.dec = -d.dec; write_scan_hits_to_dat_file(scan_of(d, {{}}), "x"); header("x", d, "n/a"); vf_cover("end");
}
ENTRY e_file() { // hits of a scan that was read from a file, of which some channels were searched
    Header hd; hd.T = 2; hd.nchans = 12; auto s = opened(hd, 4, "/data/on 1.h5"); std::vector<std::list<hit>> h(3); bool search[3]; for (int k = 0; k < 3; ++k) { search[k] = vf_pick("searched", 0, 1); if (search[k]) h[k].push_back(listed()); }
    int calls = 0; auto hits = h; s.add_coarse_channel_transform([hits, search](coarse_channel c) { int k = c._coarse_channel_number; if (search[k]) c.set_hits(hits[k]); return c; }); write_scan_hits_to_dat_file(s, "hits.dat"); listing("hits.dat", h); auto l = split(disk["hits.dat"], '\n'); vf_check(after(l, "File ID:", false) == "/data/on 1.h5", "file the hits are from"); vf_check(after(l, "Source:", false) == "Voyager", "source"); vf_cover("end");
}
ENTRY e_again() { // an existing file is replaced
    auto d = described(); std::vector<std::list<hit>> many(1, {listed(), listed(), listed()}), one(1, {listed()}); disk["hits.dat"] = std::string(5000, 'x'); if (vf_pick("before", 0, 1)) write_scan_hits_to_dat_file(scan_of(d, many), "hits.dat"); write_scan_hits_to_dat_file(scan_of(d, one), "hits.dat"); listing("hits.dat", one); vf_cover("end");
}
ENTRY e_faults() { // writes that take part of the text, a disk that fills up, a file that cannot be opened
    auto d = described(); std::vector<std::list<hit>> h(2, {listed()}); auto s = scan_of(d, h); write_scan_hits_to_dat_file(s, "whole"); long size = disk["whole"].size(); int n = fmt::numbers.size();
    if (vf_pick("short", 0, 1)) { chunk = 100; fmt::numbers.clear(); write_scan_hits_to_dat_file(s, "part"); listing("part", h); header("part", d, "n/a"); }
    else { long some[] = {0, 1, size / 2, size - 1}; space = some[vf_pick("space", 0, 3)]; fmt::numbers.clear(); vf_check(throws([&] { write_scan_hits_to_dat_file(s, "cut"); }), "a listing that does not fit is reported"); vf_check(fds.empty(), "nothing is left open"); }
    vf_cover("end");
}
ENTRY e_path() { // the path is the given characters, not those that follow them
    auto d = described(); std::vector<std::list<hit>> h(1, {listed()}); std::string longer = "hits.dat.old"; write_scan_hits_to_dat_file(scan_of(d, h), std::string_view(longer).substr(0, 8)); vf_check(disk.count("hits.dat") && disk.size() == 1, "the file has the given name"); listing("hits.dat", h); vf_cover("end");
}
ENTRY e_format() { // the format asked for, else the one of the extension, else Cap'n Proto
    static const struct { const char *path, *format; bool dat; } cases[] = {{"a.dat", "", true}, {"a.capnp", "", false}, {"a.cp", "", false}, {"a", "", false}, {"a.txt", "", false}, {"dat", "", false}, {"a.dat.cp", "", false}, {"a.cp.dat", "", true}, {"a.dat", "capnp", false}, {"a.cp", "dat", true}, {"a", "dat", true}, {"a", "capnp", false}, {".dat", "", true}, {"", "dat", true}};
    auto c = cases[vf_pick("case", 0, 13)]; auto d = described(); std::vector<std::list<hit>> h(1, {listed()}); write_scan_hits_to_file(scan_of(d, h), c.path, c.format); vf_check(capnp_writes == !c.dat && (int)disk.size() == c.dat, "written once, in that format"); if (c.dat) listing(c.path, h); else vf_check(capnp_path == c.path, "to the given file"); vf_cover("end");
}
ENTRY e_reading() { // reading takes what was asked for and refuses what it does not know
    int k = vf_pick("format", 0, 3); static const char *f[] = {"", "capnp", "csv", "DAT"}; bool ok = k < 2; int kind = 0; bool list = vf_pick("list", 0, 1);
    try { if (list) read_hits_from_file("a.cp", f[k]); else read_scan_hits_from_file("a.cp", f[k]); } catch (const std::invalid_argument &) { kind = 1; } catch (...) { kind = 2; }
    vf_check(kind == (ok ? 0 : 1), "formats that are not known are refused as such"); vf_check(capnp_reads == ok && (!ok || capnp_path == "a.cp"), "and others read once"); vf_cover("end");
}
