// A15: standardized moments and medians of exactly the elements of an array.
#include "arr.hpp"
#include <algorithm>
// moment about the mean and the power of the deviation it is divided by, both with n - 1 in the denominator
template <class T> static std::pair<double, double> moment_of(const std::vector<T> &g, int k) {
    double n = g.size(), s = 0; for (auto x : g) s += (double)x;
    double a = 0, q = 0; for (auto x : g) { double d = (double)x - s / n, p = 1; for (int i = 0; i < k; ++i) p *= d; a += p; q += d * d; }
    q /= n - 1; double b = 1; for (int i = 0; i < k / 2; ++i) b *= q;
    return {a / (n - 1), b};
}
struct G { Shape shape; std::vector<int64_t> axes; };
static const G GS[] = {{{2}, {}}, {{3}, {0}}, {{2, 2}, {1}}, {{2, 2}, {0}}, {{3, 2}, {0}}, {{2, 3}, {1}}, {{2, 2}, {}}, {{2, 2, 2}, {0, 2}}, {{2, 2, 2}, {2, 1}}, {{2, 3, 1}, {1}}};
// the input elements belonging to output element n
template <class T> static std::vector<T> group(const Arr<T> &a, const std::vector<int64_t> &ax, int64_t n) {
    Shape k, c; for (size_t i = 0; i < a.shape.size(); ++i) if (!ax.empty() && std::find(ax.begin(), ax.end(), (int64_t)i) == ax.end()) k.push_back(a.shape[i]);
    Shape kc = coords(n, k); std::vector<T> g;
    for (int64_t i = 0; i < a.n(); ++i) { c = coords(i, a.shape); bool in = true; size_t j = 0; if (!ax.empty()) for (size_t d = 0; d < c.size(); ++d) if (std::find(ax.begin(), ax.end(), (int64_t)d) == ax.end()) in = in && c[d] == kc[j++]; if (in) g.push_back(a.at(i)); }
    return g;
}
// elements any place x and any width h of fixed distinct patterns: the moment is that of the pattern
static void moments(const G &g, int degree, bool into) {
    SPARSE = 1 << 20; auto a = make<float>("a", g.shape, vf_pick("layout", 0, NLAYOUTS - 1)); vf_assume(view_ok(a)); double x = vf_real("x", -8, 8), h = vf_real("h", 0.5, 4); auto pattern = a;
    for (int64_t i = 0; i < a.n(); ++i) { double c = (i * 37 + 5) % 23 - (i % 3) * 4; pattern.init[a.where[i]] = c; a.parent.data_ptr<float>()[a.where[i]] = a.init[a.where[i]] = (float)(x + h * c); }
    Shape k; for (size_t i = 0; i < g.shape.size(); ++i) if (!g.axes.empty() && std::find(g.axes.begin(), g.axes.end(), (int64_t)i) == g.axes.end()) k.push_back(g.shape[i]);
    if (k.empty()) k = {1};
    auto o = make<float>("o", k, into ? vf_pick("out layout", 0, NLAYOUTS - 1) : 0); ndarray r = o.v;
    if (!into) r = bland::standardized_moment(a.v, degree, g.axes); else bland::standardized_moment(a.v, degree, o.v, g.axes);
    bool shape = same(r.shape(), k); vf_check(shape, "one moment for every group"); if (!shape) return;
    for (int64_t n = 0; n < count(k); ++n) { auto m = moment_of(group(pattern, g.axes, n), degree); vf_close(get<float>(r, n), m.first / m.second, 1e-3, "moment of the group over the power of its deviation"); }
    if (into) o.outside_unchanged("nothing else is written"); a.unchanged("elements unmodified"); vf_cover("end");
}
ENTRY e_moment2() { moments(GS[vf_pick("group", 0, 9)], 2, false); }
ENTRY e_moment4() { moments(GS[vf_pick("group", 0, 9)], 4, false); }
ENTRY e_moment4_out() { moments(GS[vf_pick("group", 0, 9)], 4, true); }
ENTRY e_moment6() { moments(GS[vf_pick("group", 0, 9)], 6, false); }
ENTRY e_moment_large() { static const G L[] = {{{4, 16}, {1}}, {{16, 4}, {0}}, {{6, 3, 4}, {0, 2}}, {{2, 3, 4, 2}, {3, 1}}, {{64}, {}}}; moments(L[vf_pick("group", 0, 4)], 4, vf_pick("into", 0, 1)); }
ENTRY e_one() { // one arbitrary element next to fixed ones
    int n = vf_pick("n", 2, 3), j = vf_pick("which", 0, n - 1); ndarray a({n}, dt<float>(), CPU()); std::vector<float> g; for (int i = 0; i < n; ++i) { g.push_back(i == j ? vf_realf("x", 4, 8) : i - 1.f); a.data_ptr<float>()[i] = g[i]; }
    auto m = moment_of(g, 4); double got = get<float>(bland::standardized_moment(a, 4), 0); vf_close(got * (m.second + 1e-8), m.first, 1e-2, "moment over the power of the deviation"); vf_cover("end");
}
ENTRY e_moment3() { // groups of an exact deviation
    double x = vf_realf("x", -8, 8), h = vf_realf("h", 0.5, 8); ndarray a({4}, dt<float>(), CPU()); float v[] = {(float)(x - h), (float)x, (float)x, (float)(x + 2 * h)}; for (int i = 0; i < 4; ++i) a.data_ptr<float>()[i] = v[i];
    // deviations -5/4, -1/4, -1/4, 7/4 of h: the third moment is positive and the same at every place and width
    ndarray r = bland::standardized_moment(a, 3); double q = (25 + 1 + 1 + 49) / 16.0 / 3, c = (-125 - 1 - 1 + 343) / 64.0 / 3; double got = get<float>(r, 0); vf_close(got * got, c * c / (q * q * q), 1e-3, "squared skewness"); vf_check(got > 0, "of the longer tail's sign"); vf_cover("end");
}
ENTRY e_moment_u8() { // bytes, into floats
    ndarray a({2, 3}, dt<uint8_t>(), CPU()), o({2}, dt<float>(), CPU()); std::vector<uint8_t> g[2]; for (int i = 0; i < 6; ++i) { uint8_t v = i < 3 ? vf_pick("byte", 0, 2) * 100 : 10 * i * i; a.data_ptr<uint8_t>()[i] = v; g[i / 3].push_back(v); }
    bland::standardized_moment(a, 4, o, {1}); for (int n = 0; n < 2; ++n) { auto m = moment_of(g[n], 4); double want = m.first / (m.second + 1e-8), got = get<float>(o, n); vf_check(got - want < 1e-3 && want - got < 1e-3, "moment of the group"); }
    vf_cover("end");
}
template <class T> static double median_of(std::vector<T> g) { std::sort(g.begin(), g.end()); size_t n = g.size(); return n % 2 ? (double)g[n / 2] : ((double)g[n / 2 - 1] + (double)g[n / 2]) / 2; }
ENTRY e_median() {
    static const Shape S[] = {{1}, {2}, {3}, {4}, {2, 2}, {1, 3}, {3, 1}, {5}}; Shape s = S[vf_pick("shape", 0, 6 + THOROUGH)]; auto a = make<float>("a", s, vf_pick("layout", 0, NLAYOUTS - 1)); vf_assume(view_ok(a));
    double got = bland::median(a.v); std::vector<float> g; for (int64_t i = 0; i < a.n(); ++i) g.push_back(a.at(i)); vf_close(got, median_of(g), 1e-4, "the middle value"); a.unchanged("elements unmodified and in place"); vf_cover("end");
}
ENTRY e_median_large() { // one arbitrary element among many
    static const Shape S[] = {{17}, {4, 5}, {3, 3, 2}, {10, 2}}; Shape s = S[vf_pick("shape", 0, 3)]; SPARSE = 1 << 20; auto a = make<float>("a", s, vf_pick("layout", 0, NLAYOUTS - 1)); vf_assume(view_ok(a));
    int64_t which = vf_pick("element", 0, 2) * (a.n() - 1) / 2; float x = vf_realf("x", -200, 200); a.parent.data_ptr<float>()[a.where[which]] = x; a.init[a.where[which]] = x;
    double got = bland::median(a.v); std::vector<float> g; for (int64_t i = 0; i < a.n(); ++i) g.push_back(a.at(i)); vf_close(got, median_of(g), 1e-4, "the middle value"); a.unchanged("elements unmodified and in place"); vf_cover("end");
}
template <class T> static void median_int(const std::vector<T> &from) {
    int64_t n = vf_pick("n", 1, 4); ndarray p({2, 2 * n + 1}, dt<T>(), CPU()); for (int64_t i = 0; i < p.numel(); ++i) p.data_ptr<T>()[i] = 77; std::vector<T> g;
    for (int64_t i = 0; i < n; ++i) { g.push_back(from[vf_pick("value", 0, from.size() - 1)]); p.data_ptr<T>()[2 * n + 1 + 1 + 2 * i] = g.back(); }
    ndarray v = cut(p, 0, 1, 2), w = cut(v, 1, 1, 2 * n + 1, 2); vf_check(bland::median(w) == (float)median_of(g), "the middle value"); vf_cover("end");
}
ENTRY e_median_u8() { median_int<uint8_t>({0, 3, 200, 255}); }
ENTRY e_median_i32() { median_int<int32_t>({-70000, -1, 2, 70000}); }
ENTRY e_median_u32() { median_int<uint32_t>({0, 1, 70000, 3000000000u}); }
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    static const G L[] = {{{70000}, {}}, {{300, 260}, {1}}, {{2, 40000}, {0}}, {{260, 2, 40}, {0, 2}}}; int k = vf_pick("group", 0, 3), median = k != 2 && vf_pick("median", 0, 1); G g = L[k]; SPARSE = 1 << 20; auto a = make<float>("a", g.shape, k % 2 ? OFFSET : DENSE, 0, 64); vf_assume(view_ok(a));
    for (int64_t i = 0; i < a.n(); ++i) { float c = i % 23 + (i * 7 % 11 == 3 ? 9 : 0) + (i > 65535) * 5; a.parent.data_ptr<float>()[a.where[i]] = a.init[a.where[i]] = c; }
    if (median) { std::vector<float> v; for (int64_t i = 0; i < a.n(); ++i) v.push_back(a.at(i)); vf_close(bland::median(a.v), median_of(v), 1e-4, "the middle value"); vf_cover("end"); return; }
    ndarray r = bland::standardized_moment(a.v, 4, g.axes); Shape ks, ones = g.shape, st(g.shape.size(), 1); for (size_t i = 0; i < g.shape.size(); ++i) if (g.axes.empty() || std::find(g.axes.begin(), g.axes.end(), (int64_t)i) != g.axes.end()) ones[i] = 1; else ks.push_back(g.shape[i]); if (ks.empty()) ks = {1}; bool shape = same(r.shape(), ks); vf_check(shape, "one moment for every group"); if (!shape) return;
    for (size_t i = st.size(); i-- > 1;) st[i - 1] = st[i] * ones[i]; auto of = places(ones, st, 0, g.shape); std::vector<std::vector<float>> e(count(ks)); for (int64_t n = 0; n < a.n(); ++n) e[of[n]].push_back(a.at(n)); auto in = places(r, ks);
    for (int64_t n = 0; n < count(ks); ++n) { auto m = moment_of(e[n], 4); if (m.second == 0) continue; vf_close(r.data_ptr<float>()[in[n]], m.first / (m.second + 1e-8), 1e-2, "moment of the group over the power of its deviation"); } vf_cover("end");
}
ENTRY e_median_sizes() { // distinct elements in mixed order, of which one is arbitrary about the middle when there are few
    static const int64_t N[] = {33, 34, 64, 65, 66, 100, 256, 257, 1000, 1002, 32770, 65536, 70002}; int64_t n = N[vf_pick("elements", 0, 12)]; ndarray x({n}, 0.f, dt<float>(), CPU()); auto p = x.data_ptr<float>(); std::vector<float> v; for (int64_t i = 0; i < n; ++i) p[i] = i * 7919 % n; if (n < 300) p[n / 3] = vf_realf("element", n / 2 - 2, n / 2 + 2); for (int64_t i = 0; i < n; ++i) v.push_back(p[i]);
    vf_close(bland::median(x), median_of(v), 1e-4, "the middle value"); vf_cover("end");
}
