// C02: slices of a scan.
#include "fil.hpp"
static void describes(scan &s, const Header &h, int64_t first, int64_t n, int64_t per) {
    vf_check(s.get_number_coarse_channels() == n && s.nchans() == n * per, "size of the slice"); vf_close(s.fch1(), h.fch1 + h.foff * (first * per), 1e-6, "first frequency of the slice"); vf_check(s.foff() == h.foff && s.ntsteps() == h.T && s.tsamp() == h.tsamp && s.tstart() == h.tstart && s.source_name() == "Voyager" && s.tduration_secs() == h.T * h.tsamp && s.machine_id() == 20 && s.telescope_id() == 6, "the rest of the description");
}
static int64_t settle(int64_t v, int64_t lo, int64_t hi) { int64_t k = lo + vf_pick("settled", 0, (int)(hi - lo)); vf_assume(v == k); return k; }
static void rejects_outside(scan &s, int64_t n) { int i = vf_u32("outside"); vf_assume(i < 0 || i >= n); vf_check(throws([&] { s.read_coarse_channel(i); }) && throws([&] { s.peak_coarse_channel(i); }), "indices outside the slice are rejected"); }
ENTRY e_slice() { // any start and count
    Header h; h.nchans = 12; h.fch1 = vf_real("fch1", 100, 10000); h.foff = vf_real("foff", -3, 3); scan s = opened(h, 3); if (vf_pick("before", 0, 1)) s.read_coarse_channel(1);
    int64_t start = vf_int("start", INT64_MIN, INT64_MAX), n = vf_int("count", INT64_MIN, INT64_MAX); bool rest = n == -1, ok = start >= 0 && start <= 4 && (rest || (n >= 0 && n <= 4 - start));
    if (ok) { start = settle(start, 0, 4); if (rest) n = 4 - start; else n = settle(n, 0, 4); } scan t; bool threw = throws([&] { t = s.slice_scan_channels(start, rest ? -1 : n); }); vf_check(threw == !ok, "exactly the ranges of the scan are accepted");
    if (ok && !threw) { describes(t, h, start, n, 3); for (int j = 0; j < n; ++j) holds(*t.read_coarse_channel(j), h, (start + j) * 3, 3, start + j); rejects_outside(t, n); describes(s, h, 0, 4, 3); holds(*s.read_coarse_channel(2), h, 6, 3, 2); } vf_cover("end");
}
ENTRY e_nested() {
    Header h; h.nchans = 10; h.foff = vf_pick("down", 0, 1) ? -0.5 : 0.25; h.fch1 = vf_real("fch1", 100, 10000); scan s = opened(h, 2); int a = vf_pick("start", 0, 4), n = vf_pick("count", 1, 5); if (a + n > 5) { vf_cover("end"); return; }
    scan t = s.slice_scan_channels(a, n); if (vf_pick("between", 0, 1)) t.read_coarse_channel(0); int b = vf_pick("start again", 0, n), m = vf_pick("count again", -1, n); if (b + m > n) { vf_check(throws([&] { t.slice_scan_channels(b, m); }), "a slice cannot leave its parent"); vf_cover("end"); return; }
    scan u = t.slice_scan_channels(b, m); if (m < 0) m = n - b; describes(u, h, a + b, m, 2); for (int j = 0; j < m; ++j) holds(*u.read_coarse_channel(j), h, (a + b + j) * 2, 2, a + b + j); vf_cover("end");
}
ENTRY e_built() { // slices of a scan made of coarse channels
    std::map<int, std::shared_ptr<coarse_channel>> m; double f = vf_real("fch1", 100, 10000); for (int k = 0; k < 3; ++k) m[k] = std::make_shared<coarse_channel>(channel(plain({2, 4}, k), plain_mask({2, 4}), f - 2 * k, -0.5, 2, 5, k));
    scan s(m); int a = vf_pick("start", 0, 2), n = vf_pick("count", 1, 3); if (a + n > 3) { vf_cover("end"); return; } scan t = s.slice_scan_channels(a, n);
    vf_check(t.get_number_coarse_channels() == n && t.nchans() == 4 * n, "size of the slice"); vf_close(t.fch1(), f - 2 * a, 1e-6, "first frequency of the slice"); for (int j = 0; j < n; ++j) vf_check(t.read_coarse_channel(j)->data().scalarize<float>({0, 0}) == a + j, "the channels given"); vf_cover("end");
}
ENTRY e_uneven() { // a band that is not a whole number of coarse channels
    static const int64_t N[][2] = {{14, 5}, {12, 7}, {11, 3}}; int k = vf_pick("split", 0, 2); Header h; h.nchans = N[k][0]; int64_t per = N[k][1], all = h.nchans / per; h.foff = vf_pick("down", 0, 1) ? -0.5 : 0.25; h.fch1 = vf_real("fch1", 100, 10000); scan s = opened(h, per); int a = vf_pick("start", 0, 3), n = vf_pick("count", -1, 3); bool ok = a <= all && (n < 0 || n <= all - a); scan t; bool threw = throws([&] { t = s.slice_scan_channels(a, n); }); vf_check(threw == !ok, "exactly the ranges of the scan are accepted"); if (!ok || threw) { vf_cover("end"); return; }
    if (n < 0) n = all - a; describes(t, h, a, n, per); for (int j = 0; j < n; ++j) holds(*t.read_coarse_channel(j), h, (a + j) * per, per, a + j); rejects_outside(t, n); vf_cover("end");
}
ENTRY e_default() { Header h; h.nchans = 12; scan s = opened(h, 3); scan t = s.slice_scan_channels(); describes(t, h, 0, 1, 3); holds(*t.read_coarse_channel(0), h, 0, 3, 0); vf_cover("end"); }
