// S03: the data layout of a filterbank file.
#include "fil.hpp"
static const char *LABEL[] = {"time", "feed_id", "frequency", "", "beam"};
struct Layout { std::vector<std::string> labels; Shape dims; int64_t nchans; };
// what the labels say: the extents of the first axes labelled time and frequency, or nothing
static bool meaning(const Layout &l, int64_t &time, int64_t &freq) {
    int t = -1, f = -1, feed = -1; bool ok = true; if (l.labels.size() < l.dims.size()) return false;
    for (size_t k = 0; k < l.dims.size(); ++k) { auto &s = l.labels[k]; if (s == "time" && t < 0) t = k; else if (s == "frequency" && f < 0) f = k; else { if (s == "feed_id" && feed < 0) feed = k; ok = ok & (l.dims[k] == 1); } }
    if (t < 0 || f < 0 || feed < 0 || !ok) return false; time = l.dims[t]; freq = l.dims[f]; if (time == l.nchans && freq != l.nchans) { auto x = time; time = freq; freq = x; } return true;
}
static void check(const Layout &l, const Attr &labels) {
    Header h; file_of(h, false); auto &d = h5model::files["file.h5"]; d.dims = l.dims; d.attrs["nchans"] = number(l.nchans); d.attrs["DIMENSION_LABELS"] = labels;
    h5_filterbank_file f("file.h5"); Shape s; bool threw = throws([&] { s = f.get_data_shape(); }); int64_t t = 0, c = 0; bool good = meaning(l, t, c);
    vf_check(threw == !good, good ? "the layout is accepted" : "the layout is rejected"); if (!threw && good) { bool three = s.size() == 3; vf_check(three, "three extents"); if (three) vf_check(s[0] == t && s[1] == 1 && s[2] == c, "time, one feed and frequency"); } vf_cover("end");
}
static Layout any(int rank, int kinds) { Layout l; for (int k = 0; k < rank; ++k) l.labels.push_back(LABEL[vf_pick("label", 0, kinds - 1)]); for (int k = 0; k < rank; ++k) l.dims.push_back(vf_int("extent", 1, 1ll << 40)); l.nchans = vf_int("nchans", 1, 1ll << 40); return l; }
ENTRY e_three() { auto l = any(3, 5); check(l, texts(l.labels)); }
ENTRY e_four() { auto l = any(4, 4); check(l, texts(l.labels)); }
ENTRY e_few() { auto l = any(vf_pick("rank", 1, 2), 5); check(l, texts(l.labels)); }
ENTRY e_short() { auto l = any(vf_pick("rank", 1, 4), 1); l.labels.clear(); int64_t n = l.dims.size(), k = vf_pick("labels", 1, 3); static const char *N[] = {"time", "feed_id", "frequency"}; for (int64_t i = 0; i < k; ++i) l.labels.push_back(N[i]); if (k >= n) { vf_cover("end"); return; } check(l, texts(l.labels)); } // fewer labels than axes
ENTRY e_stored() { // labels of fixed length, and axes without a label
    auto l = any(3, 4); Attr a = texts(l.labels); if (vf_pick("fixed", 0, 1)) { a.type.variable = false; a.type.size = 9 + 3 * vf_pick("padded", 0, 1); } else a.unset = true; check(l, a);
}
ENTRY e_missing() { Header h; file_of(h, false); auto &d = h5model::files["file.h5"]; int k = vf_pick("missing", 0, 1); if (k) d.attrs.erase("nchans"); else d.attrs.erase("DIMENSION_LABELS"); h5_filterbank_file f("file.h5"); bool threw = throws([&] { f.get_data_shape(); }); vf_check(threw, "a file without labels or channel count is rejected"); vf_cover("end"); }
ENTRY e_cells() { // the cells read follow the axes found, also when several extents are the same; files with frequency before time may be refused
    static const std::vector<std::vector<std::string>> L = {{"time", "feed_id", "frequency"}, {"frequency", "feed_id", "time"}, {"feed_id", "time", "frequency"}, {"frequency", "time", "feed_id"}, {"time", "feed_id", "beam", "frequency"}}; Layout l; l.labels = L[vf_pick("axes", 0, L.size() - 1)]; int ti = 0, fi = 0; int64_t t = vf_pick("times", 1, 3), c = vf_pick("channels", 1, 3), a = 0, b = 0; l.nchans = vf_pick("nchans", 1, 3);
    for (size_t k = 0; k < l.labels.size(); ++k) { if (l.labels[k] == "time") ti = k; if (l.labels[k] == "frequency") fi = k; l.dims.push_back(l.labels[k] == "time" ? t : l.labels[k] == "frequency" ? c : 1); } if (t == l.nchans && c != l.nchans) { std::swap(ti, fi); std::swap(t, c); }
    Header h; file_of(h, false); auto &d = h5model::files["file.h5"]; d.dims = l.dims; d.attrs["nchans"] = number(l.nchans); d.attrs["DIMENSION_LABELS"] = texts(l.labels); for (int64_t i = 0; i < t * c; ++i) d.cells.push_back(vf_realf("cell", -100, 100));
    h5_filterbank_file f("file.h5"); vf_check(meaning(l, a, b) && f.get_data_shape() == Shape{t, 1, c} && a == t && b == c, "extents"); ndarray x; bool threw = throws([&] { x = f.read_data({0, 0, 0}, {t, 1, c}); }); if (ti < fi) vf_check(!threw, "frequency after time is read"); if (threw) { vf_cover("end"); return; } bool shape = x.shape() == Shape{t, c}; vf_check(shape, "extents read"); if (!shape) return;
    for (int64_t i = 0; i < t; ++i) for (int64_t j = 0; j < c; ++j) vf_check(x.scalarize<float>({i, j}) == d.cells[ti < fi ? i * c + j : j * t + i], "cell of that time and frequency"); vf_cover("end");
}
