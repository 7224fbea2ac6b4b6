// A02: array-scalar arithmetic, scalar on either side.
#include "arr.hpp"
static Shape shape_of(int64_t i) {
    switch (i) { case 0: return {5}; case 1: return {2, 3}; case 2: return {3, 1}; case 3: return {2, 9}; case 4: return {1, 4}; case 5: return {2, 2, 3}; case 6: return {1}; default: return {17}; }
}
enum { NS = 8 };
template <class A, class S> static A exact(int op, A x, S s, bool left) {
    if (left) switch (op) { case 0: return (A)(s + x); case 1: return (A)(s - x); case 2: return (A)(s * x); default: return (A)(s / x); }
    switch (op) { case 0: return (A)(x + s); case 1: return (A)(x - s); case 2: return (A)(x * s); default: return (A)(x / s); }
}
template <class S> static S scalar(double lo, double hi) {
    if constexpr (std::is_floating_point<S>::value) return vf_realf("s", lo, hi); else return (S)vf_int("s", (int64_t)lo, (int64_t)hi);
}
// lo/hi: values both the scalar type and the element type represent
template <class A, class S> static void go(int ns, int nl, double lo, double hi) {
    int op = vf_pick("op", 0, 3), left = vf_pick("scalar_left", 0, 1); if (op % 2 && left && sizeof(A) == 8) return; /* 64-bit elements on the right of - and / are refused */ Shape sh = shape_of(vf_pick("shape", 0, ns - 1)); int lay = vf_pick("layout", 0, nl - 1);
    auto a = make<A>("a", sh, lay, op == 3 && left ? 1 : 0, 100); S s = scalar<S>(op == 3 && !left ? 1 : lo, hi);
    if (op == 3 && left && !std::is_floating_point<A>::value) for (auto x : a.init) vf_assume(x != (A)0 && x != (A)-1);
    vf_assume(view_ok(a));
    auto run = [&]() -> ndarray {
        if (left) switch (op) { case 0: return s + a.v; case 1: return s - a.v; case 2: return s * a.v; default: return s / a.v; }
        switch (op) { case 0: return a.v + s; case 1: return a.v - s; case 2: return a.v * s; default: return a.v / s; }
    };
    ndarray r = run();
    vf_check(same(r.shape(), sh), "result has the array's shape");
    vf_check(r.dtype() == dt<A>(), "result has the array's element type");
    for (int64_t n = 0; n < count(sh); ++n) {
        A want = exact<A, S>(op, a.at(n), s, left), got = get<A>(r, n);
        if constexpr (std::is_floating_point<A>::value) vf_close(got, want, 1e-3, "element of the result"); else vf_check(got == want, "element of the result");
    }
    a.unchanged("operand unmodified");
    vf_cover("end");
}
ENTRY e_f32_f32() { go<float, float>(NS, NLAYOUTS, -50, 50); }
ENTRY e_f32_i32() { go<float, int32_t>(THOROUGH ? NS : 4, THOROUGH ? NLAYOUTS : 3, -50, 50); }
ENTRY e_f32_u8() { go<float, uint8_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, 0, 255); }
ENTRY e_f32_u32() { go<float, uint32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, 0, 1000000); }
ENTRY e_u8_u8() { go<uint8_t, uint8_t>(THOROUGH ? NS : 4, THOROUGH ? NLAYOUTS : 3, 0, 255); }
ENTRY e_u8_i32() { go<uint8_t, int32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, 0, 255); }
ENTRY e_i32_i32() { go<int32_t, int32_t>(THOROUGH ? NS : 4, THOROUGH ? NLAYOUTS : 3, -2147483647, 2147483647); }
ENTRY e_u32_u32() { go<uint32_t, uint32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, 0, 4294967295.0); }
ENTRY e_i64_i32() { go<int64_t, int32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, -2147483647, 2147483647); }
ENTRY e_large() { // up to four axes with at least three elements along those that carry
    SPARSE = 7; static const Shape S[] = {{4, 3, 5}, {3, 4, 3, 3}, {7, 11}, {3, 5, 1}, {33}}; Shape sh = S[vf_pick("shape", 0, 4)]; int op = vf_pick("op", 0, 3), left = vf_pick("scalar_left", 0, 1); auto a = make<float>("a", sh, vf_pick("layout", 0, NLAYOUTS - 1), 1, 100); float s = vf_realf("s", 1, 50); vf_assume(view_ok(a));
    ndarray r = left ? op == 0 ? s + a.v : op == 1 ? s - a.v : op == 2 ? s * a.v : s / a.v : op == 0 ? a.v + s : op == 1 ? a.v - s : op == 2 ? a.v * s : a.v / s; bool shape = same(r.shape(), sh); vf_check(shape, "result has the array's shape"); if (!shape) return;
    for (int64_t n = 0; n < count(sh); ++n) vf_close(get<float>(r, n), exact<float, float>(op, a.at(n), s, left), 1e-3, "element of the result"); a.unchanged("operand unmodified"); vf_cover("end");
}
ENTRY e_ranks() { // five and six axes
    SPARSE = 7; Shape sh = vf_pick("six", 0, 1) ? Shape{2, 2, 1, 2, 3, 2} : Shape{2, 3, 2, 2, 3}; int op = vf_pick("op", 0, 3), left = vf_pick("scalar_left", 0, 1); auto a = make<float>("a", sh, SOME_LAYOUTS[vf_pick("layout", 0, 3)], 1, 100); float s = vf_realf("s", 1, 50); vf_assume(view_ok(a));
    ndarray r = left ? op == 0 ? s + a.v : op == 1 ? s - a.v : op == 2 ? s * a.v : s / a.v : op == 0 ? a.v + s : op == 1 ? a.v - s : op == 2 ? a.v * s : a.v / s; bool shape = same(r.shape(), sh); vf_check(shape, "result has the array's shape"); if (!shape) return;
    for (int64_t n = 0; n < count(sh); ++n) vf_close(get<float>(r, n), exact<float, float>(op, a.at(n), s, left), 1e-3, "element of the result"); a.unchanged("operand unmodified"); vf_cover("end");
}
ENTRY e_rounded() { // every pair of floats, also infinite ones and those that are not numbers: the operation of the element type, rounded once
    int op = vf_pick("op", 0, 3), left = vf_pick("scalar_left", 0, 1); ndarray a({2, 2}, dt<float>(), CPU()); float x[4] = {vf_fp32("a"), 1, 0, vf_fp32("a")}, s = vf_fp32("s"); for (int i = 0; i < 4; ++i) a.data_ptr<float>()[i] = x[i];
    ndarray r = left ? op == 0 ? s + a : op == 1 ? s - a : op == 2 ? s * a : s / a : op == 0 ? a + s : op == 1 ? a - s : op == 2 ? a * s : a / s; for (int i = 0; i < 4; ++i) { float want = exact<float, float>(op, x[i], s, left), got = get<float>(r, i); vf_check((got == want) | ((got != got) & (want != want)), "element of the result, rounded"); } vf_cover("end");
}
ENTRY e_lengths() { // rows of every length around the blocks in which they may be processed
    SPARSE = 5; int n = vf_pick("length", 1, THOROUGH ? 40 : 18), left = vf_pick("scalar_left", 0, 1); static const int L[] = {DENSE, STRIDED, NESTED}; auto a = make<float>("a", {3, n}, L[vf_pick("layout", 0, 2)]); float s = vf_realf("s", 1, 50); vf_assume(view_ok(a));
    ndarray r = left ? s - a.v : a.v - s; bool shape = same(r.shape(), {3, n}); vf_check(shape, "result has the array's shape"); if (!shape) return; for (int64_t k = 0; k < 3 * n; ++k) vf_close(get<float>(r, k), exact<float, float>(1, a.at(k), s, left), 1e-3, "element of the result"); vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const Shape S[] = {{70000}, {300, 260}, {2, 66000}, {260, 2, 130}}; int k = vf_pick("shape", 0, 3), left = k % 2; Shape sh = S[k]; auto a = make<float>("a", sh, k == 0 ? DENSE : k == 1 ? OFFSET : k == 2 ? COLS : ROWS, 1, 100); float s = k ? 12.5f : vf_realf("s", 1, 50); vf_assume(view_ok(a)); ndarray r = left ? s - a.v : a.v - s;
    bool shape = same(r.shape(), sh); vf_check(shape, "result has the array's shape"); if (!shape) return; auto in = places(r, sh); auto p = r.data_ptr<float>(); for (int64_t n = 0; n < count(sh); ++n) if (n % 29 == 0 || n % SPARSE == SPARSE / 2 || n + 9 > count(sh)) vf_close(p[in[n]], exact<float, float>(1, a.at(n), s, left), 1e-3, "element of the result"); a.unchanged("operand unmodified"); vf_cover("end");
}
