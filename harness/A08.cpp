// A08: masked reductions use exactly the unflagged elements.
#include "arr.hpp"
using Axes = std::vector<int64_t>;
enum { MEAN = 0, STDDEV, VAR };
static bool has(const Axes &ax, int64_t d) { for (auto x : ax) if (x == d) return true; return false; }
static Shape kept(const Shape &sh, const Axes &ax) { Shape k; if (!ax.empty()) for (size_t i = 0; i < sh.size(); ++i) if (!has(ax, i)) k.push_back(sh[i]); if (k.empty()) k = {1}; return k; }
static std::vector<int64_t> group(const Shape &sh, const Axes &ax, int64_t n) {
    Shape kc = coords(n, kept(sh, ax)); std::vector<int64_t> g;
    for (int64_t i = 0; i < count(sh); ++i) { Shape c = coords(i, sh); bool in = true; size_t j = 0; if (!ax.empty()) for (size_t d = 0; d < c.size(); ++d) if (!has(ax, d)) { in = in && c[d] == kc[j]; ++j; } if (in) g.push_back(i); }
    return g;
}
static Axes pick_axes(size_t rank) { Axes ax; int64_t m = vf_pick("axes", 0, (1 << rank) - 1); for (size_t i = 0; i < rank; ++i) if (m >> i & 1) ax.push_back(i); return ax; }
static Shape shape_of(int64_t i) { static const Shape S[] = {{4}, {2, 2}, {2, 3}, {1, 3}, {2, 1, 2}}; return S[i]; }
// The mask: any 8-bit value may flag an element; which elements are flagged is enumerated, what the flags are is not.
struct Flags { std::vector<int> set; };
static Flags flags(Arr<uint8_t> &m, int64_t pattern) {
    Flags f;
    for (int64_t i = 0; i < m.n(); ++i) { f.set.push_back(pattern >> i & 1); if (f.set[i]) vf_assume(m.at(i) != 0); else vf_assume(m.at(i) == 0); }
    return f;
}
template <class T> static void close_to(int op, const Arr<T> &a, const std::vector<int64_t> &g, const Flags &f, T got) {
    double s = 0, q = 0; int64_t n = 0;
    for (auto i : g) if (!f.set[i]) { double x = a.at(i); s += x; q += x * x; ++n; }
    double m = s / n, v = q / n - m * m; if (v < 0) v = 0;
    if constexpr (std::is_floating_point<T>::value) {
        if (op == MEAN) vf_close(got, m, 1e-4, "mean of the unflagged elements");
        else if (op == STDDEV) { vf_check(got >= 0, "deviation is not negative"); vf_close((double)got * got, v, 1e-1, "deviation of the unflagged elements"); }
        else vf_close(got, v, 1e-1, "variance of the unflagged elements");
    } else { int64_t t = 0; for (auto i : g) if (!f.set[i]) t += (int64_t)a.at(i); vf_check(got == (T)(t / n), "mean of the unflagged elements"); }
}
template <class T> static void masked(int op0, int op1, int s0, int s1, int nl, int patterns) {
    int op = vf_pick("op", op0, op1), form = vf_pick("form", 0, 1); Shape sh = shape_of(vf_pick("shape", s0, s1)), k; int la = vf_pick("layout", 0, nl - 1), lm = (la * 2 + 1 + form) % NLAYOUTS; Axes ax = pick_axes(sh.size()); k = kept(sh, ax);
    int64_t pat = vf_pick("flagged", 0, patterns ? patterns : (1 << count(sh)) - 1);
    if (patterns) { static const int P[] = {0, 1, 2, 6, 9, 5, 15}; pat = P[pat % 7] & ((1 << count(sh)) - 1); }
    auto a = make<T>("a", sh, la); auto m = make<uint8_t>("m", sh, lm); vf_assume(view_ok(a) && view_ok(m)); Flags f = flags(m, pat); if (sizeof(T) == 8) for (auto x : a.init) vf_assume(x <= (T)(1LL << 58) && x >= (T)-(1LL << 58));
    auto o = make<T>("o", k, form ? (la + 1) % NLAYOUTS : DENSE); vf_assume(view_ok(o));
    bool empty = false;
    for (int64_t n = 0; n < count(k); ++n) { bool any = false; for (auto i : group(sh, ax, n)) any = any || !f.set[i]; empty = empty || !any; }
    bool thrown = false; ndarray r = o.v;
    try {
        if (form) switch (op) { case MEAN: bland::masked_mean(a.v, m.v, o.v, ax); break; case STDDEV: bland::masked_stddev(a.v, m.v, o.v, ax); break; default: bland::masked_var(a.v, m.v, o.v, ax); }
        else switch (op) { case MEAN: r = bland::masked_mean(a.v, m.v, ax); break; case STDDEV: r = bland::masked_stddev(a.v, m.v, ax); break; default: r = bland::masked_var(a.v, m.v, ax); }
    } catch (const std::exception &) { thrown = true; }
    vf_check(thrown == empty, "exactly reductions without any unflagged element are rejected");
    if (!thrown) {
        vf_check(same(r.shape(), k), "result keeps exactly the other axes");
        for (int64_t n = 0; n < count(k); ++n) close_to<T>(op, a, group(sh, ax, n), f, get<T>(r, n));
        vf_cover("end");
    }
    if (form) o.outside_unchanged("element outside the output view");
    a.unchanged("data unmodified"); m.unchanged("mask unmodified"); vf_cover("all");
}
ENTRY e_mean() { masked<float>(MEAN, MEAN, 0, THOROUGH ? 4 : 2, NLAYOUTS, THOROUGH ? 0 : 5); }
ENTRY e_dev() { masked<float>(STDDEV, VAR, 0, 1, THOROUGH ? NLAYOUTS : 4, THOROUGH ? 0 : 4); }
ENTRY e_u8() { masked<uint8_t>(MEAN, MEAN, 1, 1, THOROUGH ? NLAYOUTS : 3, THOROUGH ? 0 : 4); }
ENTRY e_i64() { masked<int64_t>(MEAN, MEAN, 1, 1, THOROUGH ? NLAYOUTS : 2, THOROUGH ? 0 : 4); }
// the flags themselves symbolic: which elements are flagged is decided by the mask's value
ENTRY e_any_mask() {
    int la = vf_pick("layout", 0, 2), lm = vf_pick("mask_layout", 0, NLAYOUTS - 1);
    auto a = make<float>("a", {2, 2}, la); auto m = make<uint8_t>("m", {2, 2}, lm); vf_assume(view_ok(a) && view_ok(m));
    double s = 0; int64_t n = 0; for (int i = 0; i < 4; ++i) if (m.at((int64_t)i) == 0) { s += a.at((int64_t)i); ++n; }
    bool t = false; float got = 0;
    try { got = get<float>(bland::masked_mean(a.v, m.v), 0); } catch (const std::exception &) { t = true; }
    vf_check(t == (n == 0), "exactly reductions without any unflagged element are rejected");
    if (!t) { vf_close(got, s / n, 1e-4, "mean of the unflagged elements"); vf_cover("end"); }
}
ENTRY e_combined() { // both in one call, into new arrays or views of different layouts
    int form = vf_pick("form", 0, 1), la = vf_pick("layout", 0, NLAYOUTS - 1), lm = (la + 2) % NLAYOUTS; Shape sh = shape_of(vf_pick("shape", 0, 1)); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax);
    static const int P[] = {0, 1, 6, 8}; int64_t pat = P[vf_pick("flagged", 0, 3)];
    auto a = make<float>("a", sh, la); auto m = make<uint8_t>("m", sh, lm); vf_assume(view_ok(a) && view_ok(m)); Flags f = flags(m, pat);
    auto o1 = make<float>("o", k, form ? (la + 1) % NLAYOUTS : DENSE), o2 = make<float>("p", k, form ? (la + 3) % NLAYOUTS : DENSE); vf_assume(view_ok(o1) && view_ok(o2));
    ndarray r1 = o1.v, r2 = o2.v;
    if (form) bland::masked_mean_stddev(a.v, m.v, o1.v, o2.v, ax);
    else { auto r = bland::masked_mean_stddev(a.v, m.v, ax); r1 = r.first; r2 = r.second; }
    for (int64_t n = 0; n < count(k); ++n) { auto g = group(sh, ax, n); close_to<float>(MEAN, a, g, f, get<float>(r1, n)); close_to<float>(STDDEV, a, g, f, get<float>(r2, n)); }
    if (form) { o1.outside_unchanged("element outside the mean view"); o2.outside_unchanged("element outside the deviation view"); }
    a.unchanged("data unmodified"); m.unchanged("mask unmodified"); vf_cover("end");
}
template <class F> static void rejects(const ndarray &a, const ndarray &m, F f) { vf_check(throws([&] { f(a, m); }), "unsuitable mask is rejected"); }
ENTRY e_rejects() { // wrong shapes, wrong element types, nothing unflagged
    int why = vf_pick("why", 0, 6), op = vf_pick("op", 0, 3), lay = vf_pick("layout", 0, 2);
    static const Shape S[] = {{2, 2}, {3, 3}, {3, 2}, {6}, {2, 3, 1}, {1, 3}, {2, 3}};
    auto a = make<float>("a", {2, 3}, lay);
    ndarray::datatype d = why == 0 ? dt<float>() : why == 1 ? dt<uint32_t>() : why == 2 ? dt<int32_t>() : dt<uint8_t>();
    ndarray m(why < 3 ? Shape{2, 3} : S[why - 3], d, CPU());
    if (why == 0) bland::fill(m, 0.f); else if (why == 1) bland::fill(m, (uint32_t)0); else if (why == 2) bland::fill(m, (int32_t)0); else bland::fill(m, (uint8_t)0);
    bool t = throws([&] { switch (op) { case 0: bland::masked_mean(a.v, m); break; case 1: bland::masked_stddev(a.v, m); break; case 2: bland::masked_var(a.v, m); break; default: bland::masked_mean_stddev(a.v, m); } });
    vf_check(t, "unsuitable mask is rejected"); a.unchanged("data unmodified"); vf_cover("end");
}
ENTRY e_all_flagged() {
    int op = vf_pick("op", 0, 3), lay = vf_pick("layout", 0, NLAYOUTS - 1); auto a = make<float>("a", {2, 2}, lay); auto m = make<uint8_t>("m", {2, 2}, (lay + 1) % NLAYOUTS); vf_assume(view_ok(m));
    for (int i = 0; i < 4; ++i) vf_assume(m.at((int64_t)i) != 0);
    bool t = throws([&] { switch (op) { case 0: bland::masked_mean(a.v, m.v); break; case 1: bland::masked_stddev(a.v, m.v); break; case 2: bland::masked_var(a.v, m.v); break; default: bland::masked_mean_stddev(a.v, m.v); } });
    vf_check(t, "a reduction without any unflagged element is rejected"); vf_cover("end");
}
ENTRY e_ranks() { // five axes, every subset of them
    SPARSE = 11; Shape sh{2, 3, 2, 2, 3}; int op = vf_pick("op", MEAN, VAR), form = vf_pick("form", 0, 1), every = vf_pick("flagged", 4, 5); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax); auto a = make<float>("a", sh, form ? MIDDLE : COLS); auto o = make<float>("o", k, form ? COLS : DENSE); ndarray m(sh, dt<uint8_t>(), CPU()); Flags f; for (int64_t i = 0; i < count(sh); ++i) { f.set.push_back(i % every == 1); m.data_ptr<uint8_t>()[i] = f.set[i] ? 1 << i % 8 : 0; } vf_assume(view_ok(a) && view_ok(o));
    for (int64_t n = 0; n < count(k); ++n) { int c = 0; for (auto i : group(sh, ax, n)) c += !f.set[i]; if (c == 0 || (op != MEAN && (c & (c - 1)))) return; }
    ndarray r = o.v; if (form) op == MEAN ? bland::masked_mean(a.v, m, o.v, ax) : op == STDDEV ? bland::masked_stddev(a.v, m, o.v, ax) : bland::masked_var(a.v, m, o.v, ax); else r = op == MEAN ? bland::masked_mean(a.v, m, ax) : op == STDDEV ? bland::masked_stddev(a.v, m, ax) : bland::masked_var(a.v, m, ax);
    bool shape = same(r.shape(), k); vf_check(shape, "result keeps exactly the other axes"); if (!shape) return; for (int64_t n = 0; n < count(k); ++n) close_to<float>(op, a, group(sh, ax, n), f, get<float>(r, n)); if (form) o.outside_unchanged("element outside the output view"); a.unchanged("data unmodified"); vf_cover("end");
}
ENTRY e_large() { // at least three elements along every axis that carries, and flags anywhere
    SPARSE = 11; static const Shape S[] = {{4, 3, 2}, {3, 4, 3}, {3, 2, 4}, {6, 5}}; Shape sh = S[vf_pick("shape", 0, 3)]; int op = vf_pick("op", MEAN, VAR), form = vf_pick("form", 0, 1), every = vf_pick("flagged", 3, 5); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax);
    auto a = make<float>("a", sh, form ? NESTED : DENSE); auto o = make<float>("o", k, form ? STRIDED : DENSE); ndarray m(sh, dt<uint8_t>(), CPU()); Flags f; for (int64_t i = 0; i < count(sh); ++i) { f.set.push_back(i % every == 1); m.data_ptr<uint8_t>()[i] = f.set[i] ? 1 << i % 8 : 0; } vf_assume(view_ok(a) && view_ok(o));
    for (int64_t n = 0; n < count(k); ++n) { int c = 0; for (auto i : group(sh, ax, n)) c += !f.set[i]; if (c == 0 || (op != MEAN && (c & (c - 1)))) return; }
    ndarray r = form ? op == MEAN ? bland::masked_mean(a.v, m, o.v, ax) : op == STDDEV ? bland::masked_stddev(a.v, m, o.v, ax) : bland::masked_var(a.v, m, o.v, ax) : op == MEAN ? bland::masked_mean(a.v, m, ax) : op == STDDEV ? bland::masked_stddev(a.v, m, ax) : bland::masked_var(a.v, m, ax);
    vf_check(same(r.shape(), k), "result keeps exactly the other axes"); for (int64_t n = 0; n < count(k); ++n) close_to<float>(op, a, group(sh, ax, n), f, form ? o.parent.data_ptr<float>()[o.where[n]] : get<float>(r, n)); o.outside_unchanged("element outside the output view"); a.unchanged("data unmodified"); vf_cover("end");
}
ENTRY e_large_both() {
    SPARSE = 11; static const Shape S[] = {{4, 3, 2}, {3, 2, 4}}; Shape sh = S[vf_pick("shape", 0, 1)]; int every = vf_pick("flagged", 4, 5); Axes ax = pick_axes(sh.size()); Shape k = kept(sh, ax); auto a = make<float>("a", sh, ROWS); ndarray m(sh, dt<uint8_t>(), CPU()); Flags f; for (int64_t i = 0; i < count(sh); ++i) { f.set.push_back(i % every == 1); m.data_ptr<uint8_t>()[i] = f.set[i] ? 1 << i % 8 : 0; } vf_assume(view_ok(a));
    bool pow2 = true; for (int64_t n = 0; n < count(k); ++n) { int c = 0; for (auto i : group(sh, ax, n)) c += !f.set[i]; if (c == 0) return; pow2 = pow2 && !(c & (c - 1)); }
    auto r = bland::masked_mean_stddev(a.v, m, ax); for (int64_t n = 0; n < count(k); ++n) { auto g = group(sh, ax, n); close_to<float>(MEAN, a, g, f, get<float>(r.first, n)); if (pow2) close_to<float>(STDDEV, a, g, f, get<float>(r.second, n)); } vf_cover("end");
}
ENTRY e_long() { // more elements in a group, or more groups, than 8-, 15- or 16-bit counters count
    int k = vf_pick("shape", 0, 4), op = vf_pick("op", MEAN, VAR); static const Shape S[] = {{70000}, {300, 260}, {300, 260}, {2, 66000}, {260, 2, 130}}; static const Axes X[] = {{}, {1}, {0}, {0}, {0, 2}}; Shape sh = S[k]; Axes ax = X[k]; SPARSE = op == MEAN ? 16384 : 1 << 20; auto a = make<float>("a", sh, k % 2 ? OFFSET : DENSE, 0, 8); vf_assume(view_ok(a)); ndarray m(sh, dt<uint8_t>(), CPU()); Flags f; for (int64_t i = 0; i < count(sh); ++i) { f.set.push_back(i % 7 == 1 && (k != 3 || i < sh[1])); m.data_ptr<uint8_t>()[i] = f.set[i] ? 1 << i % 8 : 0; }
    ndarray r = op == MEAN ? bland::masked_mean(a.v, m, ax) : op == STDDEV ? bland::masked_stddev(a.v, m, ax) : bland::masked_var(a.v, m, ax); Shape ks = kept(sh, ax), ones = sh, st(sh.size(), 1); if (ax.empty()) ones = Shape(sh.size(), 1); for (auto x : ax) ones[x] = 1; bool shape = same(r.shape(), ks); vf_check(shape, "result keeps exactly the other axes"); if (!shape) return;
    for (size_t i = sh.size(); i-- > 1;) st[i - 1] = st[i] * ones[i]; auto of = places(ones, st, 0, sh); std::vector<std::vector<int64_t>> g(count(ks)); for (int64_t n = 0; n < a.n(); ++n) g[of[n]].push_back(n); auto in = places(r, ks); auto p = r.data_ptr<float>(); for (int64_t n = 0; n < count(ks); ++n) close_to<float>(op, a, g[n], f, p[in[n]]); a.unchanged("data unmodified"); vf_cover("end");
}
