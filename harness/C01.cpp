// C01: coarse channels tile the band of a scan.
#include "fil.hpp"
static const int64_t S[][2] = {{12, 4}, {12, 3}, {8, 8}, {6, 1}, {15, 5}, {10, 3}};
static Header header(int which) { Header h; h.nchans = S[which][0]; h.T = vf_pick("spectra", 1, 3); h.fch1 = vf_real("fch1", 100, 10000); h.foff = vf_real("foff", -3, 3); return h; }
ENTRY e_read() { // any index
    int w = vf_pick("split", 0, 5); Header h = header(w); int64_t per = S[w][1], n = h.nchans / per; scan s = opened(h, per); vf_check(s.get_number_coarse_channels() == n, "number of coarse channels");
    int i = vf_u32("index"); bool inside = i >= 0 && i < n; if (inside) for (int k = 0; k < n; ++k) if (i == k) { i = k; break; }
    std::shared_ptr<coarse_channel> c; bool threw = throws([&] { c = s.read_coarse_channel(i); }); vf_check(threw == !inside, "exactly the indices of the scan are accepted");
    if (!threw && inside) { vf_check(c != nullptr, "a channel"); holds(*c, h, i * per, per, i); } vf_cover("end");
}
ENTRY e_peek() {
    int w = vf_pick("split", 0, 2); Header h = header(w); int64_t per = S[w][1], n = h.nchans / per; scan s = opened(h, per); int r = vf_pick("read", -1, n - 1); if (r >= 0) s.read_coarse_channel(r);
    int i = vf_u32("index"); bool inside = i >= 0 && i < n; if (inside) for (int k = 0; k < n; ++k) if (i == k) { i = k; break; }
    std::shared_ptr<coarse_channel> c; bool threw = throws([&] { c = s.peak_coarse_channel(i); }); vf_check(threw == !inside, "exactly the indices of the scan are accepted");
    if (inside && !threw) { vf_check((c != nullptr) == (i == r), "only channels already read are there"); if (c) holds(*c, h, i * per, per, i); } vf_cover("end");
}
ENTRY e_orders() { // channels read in any order, and again, do not affect each other
    Header h; h.nchans = 9; h.foff = vf_pick("down", 0, 1) ? -0.5 : 0.25; scan s = opened(h, 3); scan copy = s; std::vector<std::shared_ptr<coarse_channel>> c; std::vector<int> at;
    for (int k = 0; k < 3; ++k) { at.push_back(vf_pick("index", 0, 2)); c.push_back((k == 1 && vf_pick("through", 0, 1) ? copy : s).read_coarse_channel(at[k])); }
    for (int k = 0; k < 3; ++k) holds(*c[k], h, at[k] * 3, 3, at[k]); vf_cover("end");
}
ENTRY e_far() { // regions far into a file of many channels
    Header h; h.T = 1; h.nchans = (int64_t)1 << 33; h.fch1 = 1000; h.foff = vf_pick("down", 0, 1) ? -1e-6 : 1e-6; file_of(h, false); scan s("file.h5", 4); static const int I[] = {0, 1 << 20, 1 << 29, (1 << 29) + 3, 1 << 30, 2147483646}; int i = I[vf_pick("index", 0, 5)];
    auto c = s.read_coarse_channel(i); vf_close(c->fch1(), 1000 + h.foff * ((double)i * 4), 1e-6, "frequency of its first fine channel"); ndarray d = c->data(); bool same = true;
    for (int64_t f = 0; f < 4; ++f) if (d.scalarize<float>({0, f}) != (float)(((int64_t)i * 4 + f) % 65536)) same = false; vf_check(same, "its data are that region of the file"); vf_cover("end");
}
ENTRY e_built() { // a scan made of coarse channels
    int n = vf_pick("channels", 1, 3); std::map<int, std::shared_ptr<coarse_channel>> m; double f = vf_real("fch1", 100, 10000);
    for (int k = 0; k < n; ++k) m[k] = std::make_shared<coarse_channel>(channel(plain({2, 4}, k), plain_mask({2, 4}, k), f - 2 * k, -0.5, 18.253611008, 57650.78209490741, k));
    scan s(m); vf_check(s.get_number_coarse_channels() == n && s.nchans() == 4 * n && s.ntsteps() == 2 && s.foff() == -0.5 && s.tsamp() == 18.253611008 && s.tstart() == 57650.78209490741 && s.source_name() == "src", "description"); vf_check(s.fch1() == f, "first frequency"); vf_check(s.tduration_secs() == 2 * 18.253611008, "duration");
    vf_check(s.nbits() == 32 && s.nifs() == 1 && s.data_type() == 1, "data format"); vf_check(s.machine_id() == 20 && s.telescope_id() == 6 && s.src_dej() == 1 && s.src_raj() == 2 && s.az_start() == m[0]->az_start() && s.za_start() == m[0]->za_start(), "origin"); for (int k = 0; k < n; ++k) vf_check(s.get_coarse_channel_with_frequency(f - 2 * k - 0.75) == k, "the channel of a frequency");
    int i = vf_u32("index"); bool inside = i >= 0 && i < n; if (inside) for (int k = 0; k < n; ++k) if (i == k) { i = k; break; }
    std::shared_ptr<coarse_channel> c; bool threw = throws([&] { c = s.read_coarse_channel(i); }); vf_check(threw == !inside, "exactly the indices of the scan are accepted");
    if (inside && !threw) { vf_check(c->fch1() == f - 2 * i && c->data().scalarize<float>({1, 2}) == i, "the channel given"); } vf_cover("end");
}
ENTRY e_gaps() { // a scan made of coarse channels that are not all there
    std::map<int, std::shared_ptr<coarse_channel>> m; auto c = [&](int k) { m[k] = std::make_shared<coarse_channel>(channel(plain({2, 4}, k), plain_mask({2, 4}), 1000 - 2 * k)); }; int w = vf_pick("which", 0, 2);
    if (w == 0) vf_check(throws([&] { scan s(m); }), "no channels"); else if (w == 1) { c(1); vf_check(throws([&] { scan s(m); }), "no first channel"); } else { c(0); c(2); scan s(m); vf_check(throws([&] { s.read_coarse_channel(1); }), "a missing channel is rejected"); } vf_cover("end");
}
ENTRY e_telescope() { // a full band of 64 coarse channels of 2^20 fine channels at telescope resolution
    Header h; h.T = 16; h.nchans = 64 << 20; h.fch1 = 8421.38671875; h.foff = vf_pick("down", 0, 1) ? -2.7939677238464355e-06 : 2.7939677238464355e-06; file_of(h, false); scan s("file.h5", 1 << 20); vf_check(s.get_number_coarse_channels() == 64 && s.ntsteps() == 16 && s.nchans() == (64 << 20), "extent of the scan");
    vf_check(s.fch1() == h.fch1 && s.foff() == h.foff && s.tsamp() == h.tsamp && s.tstart() == h.tstart && s.tduration_secs() == 16 * h.tsamp, "widths and times"); bool right = true;
    for (int i = 0; i < 64; ++i) { auto c = s.read_coarse_channel(i); double e = c->fch1() - (h.fch1 + h.foff * ((double)i * (1 << 20))); if (!(e < 1e-9 && e > -1e-9) || c->nchans() != 1 << 20 || c->ntsteps() != 16 || c->_coarse_channel_number != i || c->foff() != h.foff || c->tsamp() != h.tsamp || c->tstart() != h.tstart || c->src_dej() != 1.1 || c->src_raj() != 2.7 || c->az_start() != 3.3 || c->za_start() != 4.9) right = false; }
    vf_check(right, "description of every coarse channel"); vf_cover("end");
}
ENTRY e_described() { // a scan made of a coarse channel takes over each value it has
    int absent = vf_pick("absent", 0, 7); using I = std::optional<int64_t>; using D = std::optional<double>; double ra = vf_real("ra", -10, 30), dec = vf_real("dec", -90, 90), az = vf_real("az", -400, 400), za = vf_real("za", -400, 400); int64_t id = vf_int("machine", -5, 1 << 20), tel = vf_int("telescope", -5, 1 << 20), bits = vf_int("bits", 1, 64);
    std::map<int, std::shared_ptr<coarse_channel>> m; std::function<ndarray()> data = [] { return plain({3, 4}, 1); }, mask = [] { return plain_mask({3, 4}); };
    for (int k = 0; k < 2; ++k) m[k] = std::make_shared<coarse_channel>(data, mask, 1000.0 - 2 * k, -0.5, absent == 1 ? I() : I(id), absent == 2 ? I() : I(bits), (int64_t)4, (int64_t)3, (int64_t)5, std::string("made"), absent == 3 ? D() : D(dec), absent == 4 ? D() : D(ra), absent == 5 ? I() : I(tel), 2.0, 7.0, (int64_t)9, absent == 6 ? D() : D(az), absent == 7 ? D() : D(za), (int64_t)k);
    scan s(m); vf_check(s.nifs() == 5 && s.data_type() == 9 && s.ntsteps() == 3 && s.nchans() == 8 && s.tsamp() == 2 && s.tstart() == 7 && s.tduration_secs() == 6 && s.source_name() == "made", "values every channel has"); if (absent != 2) vf_check(s.nbits() == bits, "bits"); else vf_check(s.nbits() == 32, "bits of a channel without them");
    auto has = [&](int which, auto read, auto value, const char *label) { if (absent == which) vf_check(throws([&] { read(); }), label); else vf_check(read() == value, label); };
    has(1, [&] { return s.machine_id(); }, id, "machine"); has(3, [&] { return s.src_dej(); }, dec, "declination"); has(4, [&] { return s.src_raj(); }, ra, "right ascension"); has(5, [&] { return s.telescope_id(); }, tel, "telescope"); has(6, [&] { return s.az_start(); }, az, "azimuth"); has(7, [&] { return s.za_start(); }, za, "zenith angle"); vf_cover("end");
}
