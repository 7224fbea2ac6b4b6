// A05: elementwise copy, square, square root and absolute value.
#include "arr.hpp"
static Shape shape_of(int64_t i) { static const Shape S[] = {{5}, {2, 3}, {3, 1}, {1, 4}, {2, 2, 3}, {2, 1, 2}, {1, 9}}; return S[i]; }
enum { NS = 7, COPY = 0, SQUARE, SQRT, ABS };
template <class T, class O> static void matches(int op, T x, O got) {
    switch (op) {
    case COPY: if constexpr (std::is_floating_point<O>::value) vf_close(got, (O)x, 1e-4, "element"); else vf_check(got == (O)x, "element"); break;
    case SQUARE: if constexpr (std::is_floating_point<O>::value) vf_close(got, (O)(x * x), 1e-1, "element"); else vf_check(got == (O)(x * x), "element"); break;
    case SQRT: vf_check(got >= 0, "root is not negative"); vf_close((double)got * got, x, 1e-2, "element"); break;
    default: if constexpr (std::is_floating_point<O>::value) vf_close(got, x < 0 ? -x : x, 1e-4, "element"); else if constexpr (std::is_signed<T>::value) vf_check(got == (O)(x < 0 ? -x : x), "element"); else vf_check(got == (O)x, "element"); break;
    }
}
static ndarray fresh_result(int op, const ndarray &a) { switch (op) { case COPY: return bland::copy(a); case SQUARE: return bland::square(a); case SQRT: return bland::sqrt(a); default: return bland::abs(a); } }
static ndarray into(int op, const ndarray &a, ndarray &o) { switch (op) { case COPY: return bland::copy(a, o); case SQUARE: return bland::square(a, o); case SQRT: return bland::sqrt(a, o); default: return bland::abs(a, o); } }
template <class T> static void to_new(int ns, int nops) {
    static const int F[] = {COPY, SQUARE, ABS, SQRT};
    int op = F[vf_pick("op", 0, nops - 1)]; Shape sh = shape_of(vf_pick("shape", 0, ns - 1)); int lay = vf_pick("layout", 0, NLAYOUTS - 1);
    auto a = make<T>("a", sh, lay, op == SQRT ? 0 : -100, 100); vf_assume(view_ok(a));
    if (op == ABS && std::is_same<T, int32_t>::value) for (auto x : a.init) vf_assume(x != (T)INT32_MIN);
    if (op == SQUARE && sizeof(T) == 8) for (auto x : a.init) vf_assume(x <= (T)3000000000LL && x >= (T)-3000000000LL);
    ndarray r = fresh_result(op, a.v);
    vf_check(same(r.shape(), sh), "result has the source's shape"); vf_check(r.dtype() == dt<T>(), "result has the source's element type");
    for (int64_t n = 0; n < count(sh); ++n) matches<T, T>(op, a.at(n), get<T>(r, n));
    a.unchanged("source unmodified");
    // not shared: writing the result leaves the source alone
    for (int64_t n = 0; n < count(sh); ++n) r.data_ptr<T>()[pos(r, coords(n, sh))] = (T)77;
    a.unchanged("result is independent of the source");
    vf_cover("end");
}
template <class T, class O> static void to_out(int ns, int nops, int nlo) {
    static const int F[] = {COPY, SQUARE, ABS, SQRT};
    int op = F[vf_pick("op", 0, nops - 1)]; Shape sh = shape_of(vf_pick("shape", 0, ns - 1)); int la = vf_pick("layout_in", 0, NLAYOUTS - 1), lo = vf_pick("layout_out", 0, nlo - 1);
    auto a = make<T>("a", sh, la, op == SQRT ? 0 : -100, 100); auto o = make<O>("o", sh, lo); vf_assume(view_ok(a)); vf_assume(view_ok(o));
    if (op == ABS && std::is_same<T, int32_t>::value) for (auto x : a.init) vf_assume(x != (T)INT32_MIN);
    into(op, a.v, o.v);
    O *p = o.parent.template data_ptr<O>();
    for (int64_t n = 0; n < count(sh); ++n) matches<T, O>(op, a.at(n), p[o.where[n]]);
    o.outside_unchanged("element outside the destination"); a.unchanged("source unmodified");
    vf_cover("end");
}
ENTRY e_new_f32() { to_new<float>(NS, 3); }
ENTRY e_new_sqrt() { // the square root of any non-negative value
    int lay = vf_pick("layout", 0, NLAYOUTS - 1); auto a = make<float>("a", {2, 2}, lay, 0, 100); vf_assume(view_ok(a));
    ndarray r = bland::sqrt(a.v); vf_check(same(r.shape(), {2, 2}), "result has the source's shape");
    for (int n = 0; n < 4; ++n) matches<float, float>(SQRT, a.at(n), get<float>(r, n));
    a.unchanged("source unmodified"); vf_cover("end");
}
ENTRY e_new_u8() { to_new<uint8_t>(THOROUGH ? NS : 4, 3); }
ENTRY e_new_i32() { to_new<int32_t>(THOROUGH ? NS : 4, 3); }
ENTRY e_new_u32() { to_new<uint32_t>(THOROUGH ? NS : 2, 3); }
ENTRY e_new_i64() { to_new<int64_t>(THOROUGH ? NS : 2, 3); }
ENTRY e_out_f32() { to_out<float, float>(NS, 3, THOROUGH ? NLAYOUTS : 3); }
ENTRY e_out_u8() { to_out<uint8_t, uint8_t>(THOROUGH ? NS : 3, 3, THOROUGH ? NLAYOUTS : 3); }
ENTRY e_out_u8_f32() { to_out<uint8_t, float>(THOROUGH ? NS : 2, 1, THOROUGH ? NLAYOUTS : 3); }
ENTRY e_out_broadcast() { // a size-1 axis of the source repeats along the destination
    int op = vf_pick("op", 0, 1), la = vf_pick("layout_in", 0, NLAYOUTS - 1), lo = vf_pick("layout_out", 0, NLAYOUTS - 1), ax = vf_pick("axis", 0, 1);
    auto a = make<float>("a", ax ? Shape{2, 1} : Shape{1, 3}, la); auto o = make<float>("o", {2, 3}, lo); vf_assume(view_ok(a)); vf_assume(view_ok(o));
    into(op, a.v, o.v); float *p = o.parent.data_ptr<float>();
    for (int64_t n = 0; n < 6; ++n) { auto c = coords(n, {2, 3}); c[ax] = 0; matches<float, float>(op, a.at(c), p[o.where[n]]); }
    o.outside_unchanged("element outside the destination"); a.unchanged("source unmodified"); vf_cover("end");
}
ENTRY e_out_mismatch() {
    int op = vf_pick("op", 0, 3); static const Shape S[] = {{2, 2}, {3, 3}, {6}, {2, 3, 1}, {3, 2}};
    auto a = make<float>("a", {2, 3}, DENSE, 0, 100); auto o = make<float>("o", S[vf_pick("shape", 0, 4)], DENSE);
    vf_check(throws([&] { into(op, a.v, o.v); }), "a destination of another shape is rejected"); o.unchanged("destination untouched"); vf_cover("end");
}
ENTRY e_large() { // up to four axes with at least three elements along those that carry
    SPARSE = 7; static const Shape S[] = {{4, 3, 5}, {3, 4, 3, 3}, {7, 11}, {3, 5, 1}, {33}}; static const int F[] = {COPY, SQUARE, ABS}; int op = F[vf_pick("op", 0, 2)]; Shape sh = S[vf_pick("shape", 0, 4)]; int la = vf_pick("layout_in", 0, NLAYOUTS - 1), form = vf_pick("form", 0, 2); auto a = make<float>("a", sh, la); vf_assume(view_ok(a));
    if (form == 0) { ndarray r = fresh_result(op, a.v); bool shape = same(r.shape(), sh); vf_check(shape, "result has the source's shape"); if (!shape) return; for (int64_t n = 0; n < count(sh); ++n) matches<float, float>(op, a.at(n), get<float>(r, n)); }
    else { auto o = make<float>("o", sh, (la + form) % NLAYOUTS); vf_assume(view_ok(o)); into(op, a.v, o.v); float *p = o.parent.data_ptr<float>(); for (int64_t n = 0; n < count(sh); ++n) matches<float, float>(op, a.at(n), p[o.where[n]]); o.outside_unchanged("element outside the destination"); }
    a.unchanged("source unmodified"); vf_cover("end");
}
ENTRY e_ranks() { // five and six axes
    SPARSE = 7; static const int F[] = {COPY, SQUARE, ABS}; int op = F[vf_pick("op", 0, 2)]; Shape sh = vf_pick("six", 0, 1) ? Shape{2, 2, 1, 2, 3, 2} : Shape{2, 3, 2, 2, 3}; int la = vf_pick("layout_in", 0, 3), form = vf_pick("form", 0, 1); auto a = make<float>("a", sh, SOME_LAYOUTS[la]); vf_assume(view_ok(a));
    if (form == 0) { ndarray r = fresh_result(op, a.v); bool shape = same(r.shape(), sh); vf_check(shape, "result has the source's shape"); if (!shape) return; for (int64_t n = 0; n < count(sh); ++n) matches<float, float>(op, a.at(n), get<float>(r, n)); }
    else { auto o = make<float>("o", sh, SOME_LAYOUTS[(la + 1) % 4]); vf_assume(view_ok(o)); into(op, a.v, o.v); float *p = o.parent.data_ptr<float>(); for (int64_t n = 0; n < count(sh); ++n) matches<float, float>(op, a.at(n), p[o.where[n]]); o.outside_unchanged("element outside the destination"); }
    a.unchanged("source unmodified"); vf_cover("end");
}
ENTRY e_rounded() { // every float, also infinite ones and those that are not numbers
    int op = vf_pick("op", 0, 3), given = vf_pick("given", 0, 1); ndarray a({2, 2}, dt<float>(), CPU()), o({2, 2}, dt<float>(), CPU()); float x[4] = {vf_fp32("a"), 4, -0.0f, vf_fp32("a")}; for (int i = 0; i < 4; ++i) a.data_ptr<float>()[i] = x[i], o.data_ptr<float>()[i] = 5;
    ndarray r = given ? (into(op, a, o), o) : fresh_result(op, a); for (int i = 0; i < 4; ++i) { float want = op == COPY ? x[i] : op == SQUARE ? x[i] * x[i] : op == SQRT ? __builtin_sqrtf(x[i]) : __builtin_fabsf(x[i]), got = get<float>(r, i); vf_check((got == want) | ((got != got) & (want != want)), "element, rounded"); } vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const Shape S[] = {{70000}, {300, 260}, {2, 66000}, {260, 2, 130}}; int k = vf_pick("shape", 0, 3), op = k % 2 ? SQUARE : COPY, form = vf_pick("form", 0, 1); Shape sh = S[k]; auto a = make<float>("a", sh, k == 0 ? DENSE : k == 1 ? OFFSET : COLS), o = make<float>("o", form ? sh : Shape{1}, form ? k % 2 ? DENSE : ROWS : DENSE); vf_assume(view_ok(a)); vf_assume(view_ok(o));
    ndarray r = form ? (into(op, a.v, o.v), o.v) : fresh_result(op, a.v); bool shape = same(r.shape(), sh); vf_check(shape, "result has the source's shape"); if (!shape) return; auto in = places(r, sh); auto p = r.data_ptr<float>(); for (int64_t n = 0; n < count(sh); ++n) matches<float, float>(op, a.at(n), p[in[n]]);
    if (form && !(k % 2)) { auto q = o.parent.data_ptr<float>(); int64_t row = count(sh) / sh[0]; for (int64_t i = 0; i < (int64_t)o.init.size(); ++i) if (i < 2 * row || i >= (2 + sh[0]) * row) vf_check(q[i] == o.init[i], "element outside the destination"); } a.unchanged("source unmodified"); vf_cover("end");
}
