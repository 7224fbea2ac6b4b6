// A07: reductions aggregate exactly the elements of the reduced axes.
#include "arr.hpp"
enum { SUM = 0, MEAN, MAX, STDDEV, VAR, NOPS };
using Axes = std::vector<int64_t>;
static ndarray apply(int op, const ndarray &a, Axes ax) {
    switch (op) { case SUM: return bland::sum(a, ax); case MEAN: return bland::mean(a, ax); case MAX: return bland::max(a, ax); case STDDEV: return bland::stddev(a, ax); default: return bland::var(a, ax); }
}
static ndarray apply(int op, const ndarray &a, ndarray &o, Axes ax) {
    switch (op) { case SUM: return bland::sum(a, o, ax); case MEAN: return bland::mean(a, o, ax); case MAX: return bland::max(a, o, ax); case STDDEV: return bland::stddev(a, o, ax); default: return bland::var(a, o, ax); }
}
static bool has(const Axes &ax, int64_t d) { for (auto x : ax) if (x == d) return true; return false; }
// every set of axes in either order; the empty set means all of them
static Axes pick_axes(size_t rank) {
    Axes ax; int64_t m = vf_pick("axes", 0, (1 << rank) - 1);
    for (size_t i = 0; i < rank; ++i) if (m >> i & 1) ax.push_back(i);
    if (ax.size() > 1 && vf_pick("order", 0, 1)) ax = Axes(ax.rbegin(), ax.rend());
    return ax;
}
static Shape kept(const Shape &sh, const Axes &ax) {
    Shape k; if (!ax.empty()) for (size_t i = 0; i < sh.size(); ++i) if (!has(ax, i)) k.push_back(sh[i]);
    if (k.empty()) k = {1};
    return k;
}
// the input elements belonging to output element n
template <class T> static std::vector<T> group(const Arr<T> &a, const Axes &ax, int64_t n) {
    Shape k = kept(a.shape, ax), kc = coords(n, k); std::vector<T> g;
    for (int64_t i = 0; i < a.n(); ++i) {
        Shape c = coords(i, a.shape); bool in = true; size_t j = 0;
        if (!ax.empty()) for (size_t d = 0; d < c.size(); ++d) if (!has(ax, d)) { in = in && c[d] == kc[j]; ++j; }
        if (in) g.push_back(a.at(i));
    }
    return g;
}
static double var_of(const std::vector<double> &x) { double s = 0, q = 0; for (auto v : x) { s += v; q += v * v; } s /= x.size(); return q / x.size() - s * s; }
template <class T, class O> static void expect(int op, const std::vector<T> &g, O got) {
    constexpr bool fp = std::is_floating_point<O>::value;
    if (op == MAX) {
        bool any = false, all = true;
        for (auto x : g) { any = any | (got == (O)x); all = all & (got >= (O)x); }
        vf_check(all, "maximum is not below any element"); vf_check(any, "maximum is one of the elements"); return;
    }
    if constexpr (fp) {
        double s = 0, q = 0; for (auto x : g) { s += (double)x; q += (double)x * x; }
        double m = s / g.size(), v = q / g.size() - m * m;
        if (op == SUM) vf_close(got, s, 1e-3, "sum of the group");
        else if (op == MEAN) vf_close(got, m, 1e-4, "mean of the group");
        else if (op == STDDEV) { vf_check(got >= 0, "deviation is not negative"); vf_close((double)got * got, v < 0 ? 0 : v, 1e-1, "standard deviation of the group"); }
        else vf_close(got, v < 0 ? 0 : v, 1e-1, "variance of the group");
    } else {
        int64_t s = 0; for (auto x : g) s += (int64_t)x;
        if (op == SUM) vf_check(got == (O)s, "sum of the group");
        else vf_check(got == (O)(s / (int64_t)g.size()), "mean of the group");
    }
}
static Shape shape_of(int64_t i) { static const Shape S[] = {{2, 3}, {5}, {2, 2, 2}, {3, 1}, {1, 4}, {2, 1, 3}}; return S[i]; }
static Shape shape2_of(int64_t i) { static const Shape S[] = {{2, 2}, {4}, {4, 2}, {2, 1}}; return S[i]; } // group sizes that are powers of two
template <class T> static void fresh_out(int op0, int op1, int ns, int nl, bool pow2) {
    int op = vf_pick("op", op0, op1); Shape sh = pow2 ? shape2_of(vf_pick("shape", 0, ns - 1)) : shape_of(vf_pick("shape", 0, ns - 1)); Axes ax = pick_axes(sh.size());
    auto a = make<T>("a", sh, vf_pick("layout", 0, nl - 1)); vf_assume(view_ok(a)); if (sizeof(T) == 8) for (auto x : a.init) vf_assume(x <= (T)(1LL << 58) && x >= (T)-(1LL << 58));
    ndarray r = apply(op, a.v, ax); Shape k = kept(sh, ax);
    vf_check(same(r.shape(), k), "result keeps exactly the other axes"); vf_check(r.dtype() == dt<T>(), "result has the input's element type");
    for (int64_t n = 0; n < count(k); ++n) expect<T, T>(op, group(a, ax, n), get<T>(r, n));
    a.unchanged("input unmodified"); vf_cover("end");
}
template <class T, class O> static void given_out(int op0, int op1, int ns, int nl, bool pow2) {
    int op = vf_pick("op", op0, op1); Shape sh = pow2 ? shape2_of(vf_pick("shape", 0, ns - 1)) : shape_of(vf_pick("shape", 0, ns - 1)); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax);
    int lo = vf_pick("layout_out", 0, nl - 1);
    auto a = make<T>("a", sh, (lo + 2) % NLAYOUTS); auto o = make<O>("o", k, lo); vf_assume(view_ok(a)); vf_assume(view_ok(o));
    apply(op, a.v, o.v, ax); O *p = o.parent.template data_ptr<O>();
    for (int64_t n = 0; n < count(k); ++n) expect<T, O>(op, group(a, ax, n), p[o.where[n]]);
    o.outside_unchanged("element outside the output view"); a.unchanged("input unmodified"); vf_cover("end");
}
ENTRY e_f32() { fresh_out<float>(SUM, MAX, 6, NLAYOUTS, false); }
ENTRY e_f32_var() { fresh_out<float>(STDDEV, VAR, THOROUGH ? 4 : 3, NLAYOUTS, true); }
ENTRY e_out_f32() { given_out<float, float>(SUM, MAX, THOROUGH ? 6 : 3, NLAYOUTS, false); }
ENTRY e_out_var() { given_out<float, float>(STDDEV, VAR, 3, THOROUGH ? NLAYOUTS : 3, true); }
ENTRY e_u8() { fresh_out<uint8_t>(SUM, MAX, THOROUGH ? 6 : 2, THOROUGH ? NLAYOUTS : 3, false); }
ENTRY e_i32() { fresh_out<int32_t>(SUM, MAX, THOROUGH ? 4 : 1, THOROUGH ? NLAYOUTS : 2, false); }
ENTRY e_u32() { fresh_out<uint32_t>(SUM, MAX, THOROUGH ? 4 : 1, THOROUGH ? NLAYOUTS : 2, false); }
ENTRY e_i64() { fresh_out<int64_t>(SUM, MAX, THOROUGH ? 4 : 1, THOROUGH ? NLAYOUTS : 2, false); }
ENTRY e_out_u8_f32() { given_out<uint8_t, float>(SUM, MEAN, THOROUGH ? 6 : 1, THOROUGH ? NLAYOUTS : 2, false); }
ENTRY e_combined() { // mean and deviation in one call, into new arrays or given views
    Shape sh = shape2_of(vf_pick("shape", 0, 2)); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax); int form = vf_pick("form", 0, 1), la = vf_pick("layout", 0, NLAYOUTS - 1);
    auto a = make<float>("a", sh, la); vf_assume(view_ok(a));
    if (form == 0) {
        auto r = bland::mean_stddev(a.v, ax);
        vf_check(same(r.first.shape(), k) && same(r.second.shape(), k), "result keeps exactly the other axes");
        for (int64_t n = 0; n < count(k); ++n) { auto g = group(a, ax, n); expect<float, float>(MEAN, g, get<float>(r.first, n)); expect<float, float>(STDDEV, g, get<float>(r.second, n)); }
    } else {
        auto m = make<float>("m", k, (la + 1) % NLAYOUTS), s = make<float>("s", k, (la + 3) % NLAYOUTS); vf_assume(view_ok(m) && view_ok(s));
        bland::mean_stddev(a.v, m.v, s.v, ax);
        float *pm = m.parent.data_ptr<float>(), *ps = s.parent.data_ptr<float>();
        for (int64_t n = 0; n < count(k); ++n) { auto g = group(a, ax, n); expect<float, float>(MEAN, g, pm[m.where[n]]); expect<float, float>(STDDEV, g, ps[s.where[n]]); }
        m.outside_unchanged("element outside the mean view"); s.outside_unchanged("element outside the deviation view");
    }
    a.unchanged("input unmodified"); vf_cover("end");
}
template <class T> static void combined_int() { // the combined reduction equals the separate ones
    auto a = make<T>("a", {2, 2}, vf_pick("layout", 1, THOROUGH ? 2 : 1)); vf_assume(view_ok(a)); Axes ax = pick_axes(2);
    for (auto x : a.init) vf_assume(x <= (THOROUGH ? 20 : 3));
    auto r = bland::mean_stddev(a.v, ax); auto m = bland::mean(a.v, ax), s = bland::stddev(a.v, ax); Shape k = kept({2, 2}, ax);
    for (int64_t n = 0; n < count(k); ++n) { vf_check(get<T>(r.first, n) == get<T>(m, n), "mean equals the separate mean"); vf_check(get<T>(r.second, n) == get<T>(s, n), "deviation equals the separate deviation"); expect<T, T>(MEAN, group(a, ax, n), get<T>(r.first, n)); }
    vf_cover("end");
}
ENTRY e_combined_u8() { combined_int<uint8_t>(); }
ENTRY e_int_stddev() { // integer deviation is the root of the variance rounded towards zero
    int form = vf_pick("form", 0, 1); auto a = make<uint8_t>("a", {2}, vf_pick("layout", 0, 2)); vf_assume(view_ok(a)); for (auto x : a.init) vf_assume(x <= 9);
    int v;
    if (form) { auto r = bland::stddev(a.v); v = get<uint8_t>(r, 0); } else { ndarray o({1}, dt<uint8_t>(), CPU()); bland::stddev(a.v, o, {0}); v = o.data_ptr<uint8_t>()[0]; }
    int x = a.at((int64_t)0), y = a.at((int64_t)1), d = x > y ? x - y : y - x; // deviation of two values is half their distance
    vf_check(v <= d / 2 && v >= d / 2, "integer standard deviation"); vf_cover("end");
}
template <class T> static void counting() {
    Shape sh = shape_of(vf_pick("shape", 0, 5)); auto a = make<T>("a", sh, vf_pick("layout", 0, NLAYOUTS - 1), -1, 1); vf_assume(view_ok(a));
    int64_t c = bland::count_true(a.v), e = 0; for (int64_t i = 0; i < a.n(); ++i) e += a.at(i) != 0 ? 1 : 0;
    vf_check(c == e, "count of non-zero elements"); a.unchanged("input unmodified"); vf_cover("end");
}
ENTRY e_count_u8() { counting<uint8_t>(); }
ENTRY e_count_f32() { counting<float>(); }
// larger shapes: at least three elements along every axis that carries, up to four axes
template <class T> static void large(int op0, int op1, const std::vector<Shape> &S) {
    SPARSE = 11; int op = vf_pick("op", op0, op1), form = vf_pick("form", 0, 1); Shape sh = S[vf_pick("shape", 0, (int64_t)S.size() - 1)]; Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax); if (op >= STDDEV) { int64_t g = count(sh) / count(k); if (g & (g - 1)) return; }
    auto a = make<T>("a", sh, form ? NESTED : DENSE); auto o = make<T>("o", k, form ? STRIDED : DENSE); vf_assume(view_ok(a)); vf_assume(view_ok(o)); ndarray r = form ? apply(op, a.v, o.v, ax) : apply(op, a.v, ax);
    for (int64_t n = 0; n < count(k); ++n) expect<T, T>(op, group(a, ax, n), form ? o.parent.template data_ptr<T>()[o.where[n]] : get<T>(r, n));
    o.outside_unchanged("element outside the output view"); a.unchanged("input unmodified"); vf_cover("end");
}
ENTRY e_ranks() { // five and six axes, every subset of them
    SPARSE = 11; int op = vf_pick("op", SUM, MAX), form = vf_pick("form", 0, 1); Shape sh = vf_pick("six", 0, 1) ? Shape{2, 2, 1, 2, 3, 2} : Shape{2, 3, 2, 2, 3}; Axes ax; int64_t m = 2 * vf_pick("axes", 0, (1 << (sh.size() - 1)) - 1) + form; for (size_t i = 0; i < sh.size(); ++i) if (m >> i & 1) ax.push_back(i); Shape k = kept(sh, ax);
    auto a = make<float>("a", sh, form ? MIDDLE : COLS); auto o = make<float>("o", k, form ? COLS : DENSE); vf_assume(view_ok(a)); vf_assume(view_ok(o)); ndarray r = form ? apply(op, a.v, o.v, ax) : apply(op, a.v, ax);
    for (int64_t n = 0; n < count(k); ++n) expect<float, float>(op, group(a, ax, n), form ? o.parent.data_ptr<float>()[o.where[n]] : get<float>(r, n)); o.outside_unchanged("element outside the output view"); a.unchanged("input unmodified"); vf_cover("end");
}
ENTRY e_large() { large<float>(SUM, MAX, {{4, 3, 2}, {3, 3, 3}, {3, 2, 4}, {3, 2, 3, 2}, {7, 5}}); }
ENTRY e_large_var() { large<float>(STDDEV, VAR, {{3, 4, 2}, {4, 3, 2}, {3, 2, 4}, {2, 3, 2, 3}}); }
ENTRY e_large_u8() { large<uint8_t>(SUM, MAX, {{4, 3, 2}, {3, 2, 3}}); }
// more elements in a group, or more groups, than 8-, 15- or 16-bit counters count
template <class T> static void many(int op, Shape sh, Axes ax, int layout, int sparse) {
    SPARSE = sparse; auto a = make<T>("a", sh, layout, 0, 8); vf_assume(view_ok(a)); ndarray r = apply(op, a.v, ax); Shape k = kept(sh, ax), ones = sh; if (ax.empty()) ones = Shape(sh.size(), 1); for (auto x : ax) ones[x] = 1; bool shape = same(r.shape(), k); vf_check(shape, "result keeps exactly the other axes"); if (!shape) return;
    std::vector<std::vector<T>> g(count(k)); Shape st(sh.size(), 1); for (size_t i = sh.size(); i-- > 1;) st[i - 1] = st[i] * ones[i]; auto of = places(ones, st, 0, sh); for (int64_t n = 0; n < a.n(); ++n) g[of[n]].push_back(a.at(n)); // output element of every input element
    auto in = places(r, k); auto p = r.data_ptr<T>(); for (int64_t n = 0; n < count(k); ++n) expect<T, T>(op, g[n], p[in[n]]); a.unchanged("input unmodified"); vf_cover("end");
}
ENTRY e_long() { int k = vf_pick("shape", 0, 4); static const Shape S[] = {{70000}, {300, 260}, {300, 260}, {2, 66000}, {260, 2, 130}}; static const Axes X[] = {{0}, {1}, {0}, {0}, {0, 2}}; many<float>(vf_pick("op", SUM, MEAN), S[k], X[k], k % 2 ? OFFSET : DENSE, 16384); }
ENTRY e_long_var() { int k = vf_pick("shape", 0, 4); static const Shape S[] = {{70000}, {300, 260}, {300, 260}, {2, 66000}, {260, 2, 130}}; static const Axes X[] = {{}, {1}, {0}, {0}, {0, 2}}; many<float>(k % 2 ? STDDEV : VAR, S[k], X[k], k % 2 ? OFFSET : DENSE, 1 << 20); }
ENTRY e_long_max() { int k = vf_pick("shape", 0, 3); static const Shape S[] = {{300, 260}, {260, 2, 130}, {700}, {70000}}; static const Axes X[] = {{1}, {0, 2}, {}, {0}}; many<float>(MAX, S[k], X[k], k % 2 ? OFFSET : DENSE, 1 << 20); }
ENTRY e_long_count() { int64_t n = vf_pick("length", 0, 1) ? 70000 : 300; ndarray a({n}, dt<uint8_t>(), CPU()); for (int64_t i = 0; i < n; ++i) a.data_ptr<uint8_t>()[i] = i % 100 == 99 ? 0 : 1 + i % 255; uint8_t x = vf_u8("x"); a.data_ptr<uint8_t>()[n - 1] = x; int64_t want = 0; for (int64_t i = 0; i + 1 < n; ++i) want += i % 100 != 99; vf_check(bland::count_true(a) == want + (x != 0), "count of non-zero elements"); vf_cover("end"); }
