// E02: normalization and passband equalization.
#include "flag.hpp"
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
static ndarray data_of(coarse_channel &c, const Shape &s) { ndarray d = c.data(); bool ok = d.shape() == s && d.dtype() == dt<float>(); vf_check(ok, "shape of the data"); vf_assume(ok); return d; }
static void kept(coarse_channel &c, Input &in) { ndarray f = flags_of(c, in.shape); for (int64_t i = 0; i < in.m.n(); ++i) vf_check(get<uint8_t>(f, i) == in.m.at(i), "flags are kept"); vf_check(c.fch1() == in.cc.fch1() && c.foff() == in.cc.foff() && c.nchans() == in.cc.nchans() && c.ntsteps() == in.cc.ntsteps() && c.tsamp() == in.cc.tsamp(), "the description is kept"); in.unchanged(); }
ENTRY e_normalize() {
    static const Shape S[] = {{1, 1}, {2, 2}, {1, 4}, {3, 2}, {2, 3}}; int l = vf_pick("layout", 0, NLAYOUTS - 1); bool negative = vf_pick("negative", 0, 1); Input in(S[vf_pick("shape", 0, 4)], l, (l + 1) % NLAYOUTS, negative ? -100 : 0.01, negative ? -0.01 : 100); auto c = normalize(in.cc);
    for (int read = 0; read < 2; ++read) { ndarray d = data_of(c, in.shape); for (int64_t i = 0; i < in.x.n(); ++i) for (int64_t j = 0; j < in.x.n(); ++j) { double e = (double)get<float>(d, i) * in.x.at(j) - (double)get<float>(d, j) * in.x.at(i); vf_check(e <= 1e-2 && e >= -1e-2, "all scaled alike"); }
    bool one = false; for (int64_t i = 0; i < in.x.n(); ++i) { float v = get<float>(d, i); vf_check(negative ? v >= 0.9999f : v <= 1.0001f && v > 0, "relative to the largest"); one |= v <= 1.0001f && v >= 0.9999f; } vf_check(one, "which becomes one"); } kept(c, in); vf_cover("end");
}
static void equalized(const Shape &s, int l, int lh) {
    Input in(s, l, (l + 3) % NLAYOUTS); auto h = make<float>("response", {s[1]}, lh, 0.1, 10); vf_assume(view_ok(h)); auto c = equalize_passband_filter(in.cc, h.v); for (int read = 0; read < 2; ++read) { ndarray d = data_of(c, s); for (int64_t i = 0; i < in.x.n(); ++i) vf_close((double)get<float>(d, i) * h.at(i % s[1]), in.x.at(i), 1e-2, "divided by the response of its channel"); } h.unchanged("the response is not changed"); kept(c, in); vf_cover("end");
}
ENTRY e_equalize() { static const Shape S[] = {{1, 1}, {2, 2}, {1, 4}, {4, 1}, {3, 3}, {3, 2}, {2, 5}, {2, 9}}; int l = vf_pick("layout", 0, NLAYOUTS - 1); equalized(S[vf_pick("shape", 0, 7)], l, THOROUGH ? vf_pick("response layout", 0, 2) : l % 3); }
ENTRY e_response() { static const int64_t N[] = {2, 3, 5, 8}; Input in({2, 4}, DENSE, DENSE); ndarray h({N[vf_pick("length", 0, 3)]}, 2.f, dt<float>(), CPU()); vf_check(throws([&] { auto c = equalize_passband_filter(in.cc, h); c.data(); }), "a response of another length is rejected"); in.unchanged(); vf_cover("end"); }
ENTRY e_both() { Input in({2, 3}, DENSE, DENSE, 0.5, 100); auto h = make<float>("response", {3}, DENSE, 0.1, 10); auto c = normalize(equalize_passband_filter(in.cc, h.v)); ndarray d = data_of(c, in.shape); std::vector<double> x; for (int64_t i = 0; i < 6; ++i) x.push_back((double)in.x.at(i) / h.at(i % 3)); double top = x[0]; for (double v : x) if (v > top) top = v; for (int64_t i = 0; i < 6; ++i) { double e = (double)get<float>(d, i) * top - x[i]; vf_check(e <= 1e-2 && e >= -1e-2, "equalized, then normalized"); } kept(c, in); vf_cover("end"); }
ENTRY e_long() { // more samples than 8-, 15- or 16-bit indices count
    SPARSE = 1 << 20; static const Shape S[] = {{2, 70000}, {300, 260}, {70000, 2}}; Shape s = S[vf_pick("shape", 0, 2)]; bool norm = vf_pick("normalize", 0, 1); Input in(s, s[0] == 300 ? OFFSET : DENSE, DENSE, 1, 129); auto h = make<float>("response", {s[1]}, DENSE, 0.25, 8.25); float top = 0; for (int64_t i = 0; i < in.x.n(); ++i) top = in.x.at(i) > top ? in.x.at(i) : top; auto c = norm ? normalize(in.cc) : equalize_passband_filter(in.cc, h.v);
    ndarray d = data_of(c, s); auto at = places(d, s); auto p = d.data_ptr<float>(); for (int64_t i = 0; i < in.x.n(); ++i) if (norm) vf_close((double)p[at[i]] * top, in.x.at(i), 1e-3, "relative to the largest"); else vf_close((double)p[at[i]] * h.at(i % s[1]), in.x.at(i), 1e-3, "divided by the response of its channel"); vf_cover("end");
}
