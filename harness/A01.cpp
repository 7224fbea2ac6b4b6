// A01: array-array arithmetic on views and broadcasts.
#include "arr.hpp"
struct Pair { Shape a, b; bool ok; };
static Pair shapes(int64_t i) {
    switch (i) {
    case 0: return {{5}, {5}, true};
    case 1: return {{9}, {9}, true};          // one unrolled block of 8 plus a remainder
    case 2: return {{2, 3}, {2, 3}, true};
    case 3: return {{2, 3}, {1, 3}, true};
    case 4: return {{2, 1}, {2, 3}, true};
    case 5: return {{2, 1}, {1, 3}, true};
    case 6: return {{2, 3}, {3}, true};       // different rank, right-aligned
    case 7: return {{2}, {3, 2}, true};
    case 8: return {{1}, {4}, true};
    case 9: return {{2, 2, 3}, {2, 1, 3}, true};
    case 10: return {{2, 9}, {2, 9}, true};
    case 11: return {{2, 2}, {3, 2, 2}, true};
    case 12: return {{3, 1}, {3, 1}, true};
    case 13: return {{2, 3}, {2, 2}, false};
    case 14: return {{4}, {3}, false};
    case 15: return {{2, 3}, {2}, false};     // not broadcastable when right-aligned
    case 16: return {{2, 2, 3}, {3, 3}, false};
    case 17: return {{1, 3}, {2, 1, 1}, true};
    case 18: return {{17}, {1}, true};
    default: return {{2, 3, 2}, {2, 3, 2}, true};
    }
}
enum { NSHAPES = 20 };
static Shape bshape(const Shape &a, const Shape &b) {
    size_t n = std::max(a.size(), b.size()); Shape o(n);
    for (size_t i = 0; i < n; ++i) { int64_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1; o[n - 1 - i] = x == 1 ? y : x; }
    return o;
}
template <class A, class B> static A expected(int op, A x, B y) {
    switch (op) { case 0: return (A)(x + y); case 1: return (A)(x - y); case 2: return (A)(x * y); default: return (A)(x / y); }
}
template <class T> static T elem_at(const Arr<T> &a, const Shape &c) {
    Shape k(a.shape.size()); size_t d = c.size() - k.size();
    for (size_t i = 0; i < k.size(); ++i) k[i] = a.shape[i] == 1 ? 0 : c[i + d];
    return a.at(k);
}
static void layouts(int &la, int &lb) {
    if (THOROUGH) { la = vf_pick("layout_a", 0, NLAYOUTS - 1); lb = vf_pick("layout_b", 0, NLAYOUTS - 1); }
    else { static const int L[][2] = {{DENSE, DENSE}, {OFFSET, STRIDED}, {STRIDED, NESTED}, {NESTED, COLS}, {ROWS, DENSE}, {DENSE, OFFSET}, {HEAD, MIDDLE}, {MIDDLE, FAR}, {FAR, HEAD}}; int i = vf_pick("layouts", 0, 8); la = L[i][0]; lb = L[i][1]; }
}
template <class A, class B> static void go(int64_t nshapes, int nops = 4) {
    int op = vf_pick("op", 0, nops - 1); Pair s = shapes(vf_pick("shapes", 0, nshapes - 1)); int la, lb; layouts(la, lb);
    bool div = op == 3;
    auto a = make<A>("a", s.a, la, 0, 100); auto b = make<B>("b", s.b, lb, 1, 100);
    if (div && !std::is_floating_point<B>::value) for (auto x : b.init) vf_assume(x != (B)0 && x != (B)-1);
    vf_assume(view_ok(a)); vf_assume(view_ok(b));
    auto run = [&]() -> ndarray { switch (op) { case 0: return a.v + b.v; case 1: return a.v - b.v; case 2: return a.v * b.v; default: return a.v / b.v; } };
    if (!s.ok) {
        vf_check(throws([&] { run(); }), "incompatible shapes are rejected");
        a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end"); return;
    }
    ndarray r = run();
    Shape bs = bshape(s.a, s.b);
    vf_check(same(r.shape(), bs), "result has the broadcast shape");
    vf_check(r.dtype() == dt<A>(), "result has the first operand's element type");
    for (int64_t n = 0; n < count(bs); ++n) {
        auto c = coords(n, bs); A want = expected<A, B>(op, elem_at(a, c), elem_at(b, c)), got = get<A>(r, n);
        if constexpr (std::is_floating_point<A>::value) vf_close(got, want, 1e-3, "element of the result"); else vf_check(got == want, "element of the result");
    }
    a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified");
    vf_cover("end");
}
ENTRY e_f32() { go<float, float>(NSHAPES); }
ENTRY e_u8() { go<uint8_t, uint8_t>(THOROUGH ? NSHAPES : 7); }
ENTRY e_i32() { go<int32_t, int32_t>(THOROUGH ? NSHAPES : 4, 3); }
ENTRY e_u32() { go<uint32_t, uint32_t>(THOROUGH ? NSHAPES : 4); }
ENTRY e_f32_u8() { go<float, uint8_t>(THOROUGH ? NSHAPES : 7); }
ENTRY e_f32_i32() { go<float, uint32_t>(THOROUGH ? NSHAPES : 4); }
ENTRY e_u8_i32() { go<uint8_t, int32_t>(THOROUGH ? NSHAPES : 4, 3); }
// the function forms and the slice overload are the same operations
ENTRY e_forms() {
    int op = vf_pick("op", 0, 3), form = vf_pick("form", 0, 1);
    auto a = make<float>("a", {2, 3}, OFFSET, 0, 100); auto b = make<float>("b", {2, 3}, STRIDED, 1, 100);
    vf_assume(view_ok(a)); vf_assume(view_ok(b));
    ndarray_slice bs(b.v);
    auto run = [&]() -> ndarray {
        if (form == 0) switch (op) { case 0: return bland::add(a.v, b.v); case 1: return bland::subtract(a.v, b.v); case 2: return bland::multiply(a.v, b.v); default: return bland::divide(a.v, b.v); }
        switch (op) { case 0: return bland::add(a.v, bs); case 1: return bland::subtract(a.v, bs); case 2: return bland::multiply(a.v, bs); default: return bland::divide(a.v, bs); }
    };
    ndarray r = run();
    vf_check(same(r.shape(), {2, 3}), "result has the operands' shape");
    for (int64_t n = 0; n < 6; ++n) vf_close(get<float>(r, n), expected<float, float>(op, a.at(n), b.at(n)), 1e-3, "element of the result");
    a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified");
    vf_cover("end");
}
ENTRY e_large() { // up to four axes with at least three elements along those that carry
    SPARSE = 7; static const Pair S[] = {{{4, 3, 5}, {4, 3, 5}, true}, {{3, 3, 3, 3}, {3, 3, 3, 3}, true}, {{4, 1, 5}, {4, 3, 1}, true}, {{3, 4, 3}, {4, 1}, true}, {{3, 1, 4, 1}, {5, 1, 3}, true}, {{3, 4, 3, 2}, {3, 1, 3, 1}, true}, {{7, 11}, {7, 11}, true}, {{33}, {33}, true}};
    static const int L[][2] = {{DENSE, DENSE}, {OFFSET, STRIDED}, {NESTED, COLS}, {STRIDED, FAR}}; int op = vf_pick("op", 0, 3); Pair s = S[vf_pick("shapes", 0, 7)]; auto l = L[vf_pick("layouts", 0, 3)];
    auto a = make<float>("a", s.a, l[0], 0, 100); auto b = make<float>("b", s.b, l[1], 1, 100); vf_assume(view_ok(a) && view_ok(b)); ndarray r = op == 0 ? a.v + b.v : op == 1 ? a.v - b.v : op == 2 ? a.v * b.v : a.v / b.v; Shape bs = bshape(s.a, s.b); bool shape = same(r.shape(), bs); vf_check(shape, "result has the broadcast shape"); if (!shape) return;
    for (int64_t n = 0; n < count(bs); ++n) { auto c = coords(n, bs); vf_close(get<float>(r, n), expected<float, float>(op, elem_at(a, c), elem_at(b, c)), 1e-3, "element of the result"); } a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end");
}
ENTRY e_ranks() { // five and six axes
    SPARSE = 7; static const Pair S[] = {{{2, 3, 2, 2, 3}, {2, 3, 2, 2, 3}, true}, {{2, 3, 2, 2, 3}, {3, 1, 2, 1}, true}, {{2, 2, 1, 2, 3, 2}, {2, 2, 3, 2, 3, 2}, true}, {{2, 1, 2, 1, 3, 2}, {2, 1, 3, 1, 2}, true}, {{2}, {3, 2, 1, 2, 2, 2}, true}};
    int k = vf_pick("layouts", 0, 3), op = vf_pick("op", 0, 3); Pair s = S[vf_pick("shapes", 0, 4)]; auto a = make<float>("a", s.a, SOME_LAYOUTS[k], 0, 100); auto b = make<float>("b", s.b, SOME_LAYOUTS[(k + 1) % 4], 1, 100); vf_assume(view_ok(a) && view_ok(b)); ndarray r = op == 0 ? a.v + b.v : op == 1 ? a.v - b.v : op == 2 ? a.v * b.v : a.v / b.v; Shape bs = bshape(s.a, s.b); bool shape = same(r.shape(), bs); vf_check(shape, "result has the broadcast shape"); if (!shape) return;
    for (int64_t n = 0; n < count(bs); ++n) { auto c = coords(n, bs); vf_close(get<float>(r, n), expected<float, float>(op, elem_at(a, c), elem_at(b, c)), 1e-3, "element of the result"); } a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end");
}
ENTRY e_rounded() { // every pair of floats, also infinite ones and those that are not numbers: the operation of the element type, rounded once
    int op = vf_pick("op", 0, 3); ndarray a({3, 2}, dt<float>(), CPU()), b({2}, dt<float>(), CPU()); float x[6] = {vf_fp32("a"), 1, 2, vf_fp32("a"), 3, 4}, y[2] = {vf_fp32("b"), 8}; for (int i = 0; i < 6; ++i) a.data_ptr<float>()[i] = x[i]; for (int i = 0; i < 2; ++i) b.data_ptr<float>()[i] = y[i];
    ndarray r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; for (int i = 0; i < 6; ++i) { float want = expected<float, float>(op, x[i], y[i % 2]), got = get<float>(r, i); vf_check((got == want) | ((got != got) & (want != want)), "element of the result, rounded"); } vf_cover("end");
}
ENTRY e_lengths() { // rows of every length around the blocks in which they may be processed
    SPARSE = 5; int n = vf_pick("length", 1, THOROUGH ? 40 : 18), forms = vf_pick("form", 0, 2); static const int L[][2] = {{DENSE, DENSE}, {OFFSET, STRIDED}, {FAR, COLS}}; auto a = make<float>("a", {3, n}, L[forms][0]), b = make<float>("b", forms == 1 ? Shape{n} : Shape{3, n}, L[forms][1]); vf_assume(view_ok(a)); vf_assume(view_ok(b));
    ndarray r = a.v - b.v; bool shape = same(r.shape(), {3, n}); vf_check(shape, "result has the broadcast shape"); if (!shape) return; for (int64_t k = 0; k < 3 * n; ++k) vf_close(get<float>(r, k), expected<float, float>(1, a.at(k), elem_at(b, coords(k, {3, n}))), 1e-3, "element of the result"); vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const Pair S[] = {{{70000}, {70000}, true}, {{300, 260}, {260}, true}, {{2, 66000}, {2, 1}, true}, {{260, 2, 130}, {260, 1, 130}, true}}; int k = vf_pick("shapes", 0, 3); Pair s = S[k]; int op = k == 1, la = k % 2 ? OFFSET : DENSE, lb = k > 1 ? STRIDED : DENSE;
    auto a = make<float>("a", s.a, la, 0, 100); auto b = make<float>("b", s.b, lb, 1, 100); vf_assume(view_ok(a)); vf_assume(view_ok(b)); ndarray r = op ? a.v * b.v : a.v - b.v; bool shape = same(r.shape(), s.a); vf_check(shape, "result has the broadcast shape"); if (!shape) return;
    auto at = indices(b, s.a), in = places(r, s.a); auto p = r.data_ptr<float>(); for (int64_t n = 0; n < count(s.a); ++n) vf_close(p[in[n]], expected<float, float>(op ? 2 : 1, a.at(n), b.at(at[n])), 1e-3, "element of the result"); a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end");
}
