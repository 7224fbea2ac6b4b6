// S04: which region of a filterbank file is read.
#include "fil.hpp"
static void region(h5_filterbank_file &f, const std::vector<int64_t> &o, const std::vector<int64_t> &n, int64_t T, int64_t F, float (*at)(int64_t, int64_t)) {
    auto off = o, cnt = n; if (off.empty()) off = {0, 0, 0}; if (cnt.empty()) cnt = {T - off[0], 1, F - off[2]}; ndarray d = f.read_data(o, n), m = f.read_mask(o, n); Shape s{cnt[0], cnt[2]};
    bool ok = d.shape() == s && d.dtype() == dt<float>(), mok = m.shape() == s && m.dtype() == dt<uint8_t>(); vf_check(ok, "extents of the data"); vf_check(mok, "extents of the mask"); if (!ok || !mok) return;
    for (int64_t t = 0; t < s[0]; ++t) for (int64_t c = 0; c < s[1]; ++c) { vf_check(d.scalarize<float>({t, c}) == at(off[0] + t, off[2] + c), "that region of the file"); vf_check(m.scalarize<uint8_t>({t, c}) == 0, "nothing is flagged"); }
}
static std::vector<float> held; static int64_t T = 3, F = 5; FRESH(held); FRESH(T); FRESH(F);
static float held_at(int64_t t, int64_t c) { return held[t * F + c]; }
static h5_filterbank_file small() { Header h; h.T = T; h.nchans = F; file_of(h, false); auto &d = h5model::files["file.h5"]; for (int64_t i = 0; i < T * F; ++i) held.push_back(vf_realf("cell", -1000, 1000)); d.cells = held; return h5_filterbank_file("file.h5"); }
ENTRY e_region() { auto f = small(); int64_t t = vf_pick("first time", 0, T - 1), n = vf_pick("times", 1, T - t), c = vf_pick("first channel", 0, F - 1), k = vf_pick("channels", 1, F - c); region(f, {t, 0, c}, {n, 1, k}, T, F, held_at); vf_cover("end"); }
ENTRY e_defaults() { auto f = small(); bool offset = vf_pick("offset", 0, 1), count = vf_pick("count", 0, 1); int64_t t = vf_pick("time", 1, T - 1), c = vf_pick("channel", 1, F - 1); std::vector<int64_t> o, n; if (offset) o = {t, 0, c}; if (count) n = {T - t, 1, F - c}; region(f, o, n, T, F, held_at); vf_cover("end"); }
ENTRY e_outside() { // anything that leaves the dataset, or is not three numbers, is rejected
    auto f = small(); int k = vf_pick("which", 0, 2), way = vf_pick("way", 0, 3); std::vector<int64_t> o{0, 0, 0}, n{1, 1, 1}; int64_t extent[] = {T, 1, F}, v = (int64_t)((uint64_t)vf_u32("high") << 32 | vf_u32("low"));
    if (way == 0) { o[k] = v; vf_assume((v < 0) | (v >= extent[k])); } else if (way == 1) { int64_t first = extent[k] > 1 ? vf_pick("first", 0, extent[k] - 1) : 0; o[k] = first; n[k] = v; vf_assume((v < 0) | (v > extent[k] - first)); } else if (way == 2) o.resize(vf_pick("numbers", 1, 2)); else n.resize(vf_pick("numbers", 1, 2));
    vf_check(throws([&] { f.read_data(o, n); }), "rejected"); vf_cover("end");
}
static float far(int64_t t, int64_t c) { return (float)((t * ((1ll << 33) + 8) + c) % 65536); }
ENTRY e_far() { Header h; h.T = 3; h.nchans = (1ll << 33) + 8; file_of(h, false); h5_filterbank_file f("file.h5"); static const int64_t C[] = {0, (1ll << 31) - 1, 1ll << 31, (1ll << 32) + 1, (1ll << 33) + 5}; region(f, {vf_pick("first time", 0, 1), 0, C[vf_pick("first channel", 0, 4)]}, {2, 1, 3}, h.T, h.nchans, far); vf_cover("end"); }
// files whose axes come in another order, or with more axes of a single entry
ENTRY e_axes() {
    static const std::vector<std::vector<const char *>> L = {{"time", "feed_id", "frequency"}, {"feed_id", "time", "frequency"}, {"time", "frequency", "feed_id"}, {"frequency", "feed_id", "time"}, {"frequency", "time", "feed_id"}, {"feed_id", "frequency", "time"}, {"time", "feed_id", "beam", "frequency"}, {"beam", "time", "feed_id", "frequency"}, {"time", "frequency", "beam", "feed_id"}, {"frequency", "beam", "feed_id", "time"}};
    int l = vf_pick("axes", 0, L.size() - 1); bool swapped = vf_pick("swapped labels", 0, 1); T = 2; F = 3; Header h; h.T = T; h.nchans = F; file_of(h, false); auto &d = h5model::files["file.h5"]; std::vector<std::string> names; d.dims.clear(); int ti = 0, fi = 0;
    for (size_t k = 0; k < L[l].size(); ++k) { std::string s = L[l][k]; bool t = s == "time", c = s == "frequency"; if (t) ti = k; if (c) fi = k; names.push_back(swapped && t ? "frequency" : swapped && c ? "time" : s); d.dims.push_back(t ? T : c ? F : 1); } d.attrs["DIMENSION_LABELS"] = texts(names);
    for (int64_t i = 0; i < T * F; ++i) held.push_back(0); for (int64_t i = 0; i < T * F; ++i) { float v = vf_realf("cell", -1000, 1000); d.cells.push_back(v); int64_t t = ti < fi ? i / F : i % T, c = ti < fi ? i % F : i / T; held[t * F + c] = v; }
    h5_filterbank_file f("file.h5"); auto s = f.get_data_shape(); vf_check(s == Shape{T, 1, F}, "extents"); int64_t t = vf_pick("first time", 0, T - 1), n = vf_pick("times", 1, T - t), c = vf_pick("first channel", 0, F - 1), k = vf_pick("channels", 1, F - c);
    bool threw = throws([&] { region(f, {t, 0, c}, {n, 1, k}, T, F, held_at); }); if (ti < fi) vf_check(!threw, "frequency after time is read"); vf_cover("end"); // otherwise it is read right or rejected
}
