// A03: comparison and bitwise-and masks.
#include "arr.hpp"
static Shape shape_of(int64_t i) {
    switch (i) { case 0: return {5}; case 1: return {2, 3}; case 2: return {3, 1}; case 3: return {1, 4}; case 4: return {2, 2, 3}; default: return {2, 9}; }
}
enum { NS = 6, GT = 0, GE, LT, LE, EQ, AND, NCMP };
template <class X, class Y> static int holds(int op, X x, Y y) {
    switch (op) { case GT: return x > y; case GE: return x >= y; case LT: return x < y; case LE: return x <= y; case EQ: return x == y; default: if constexpr (std::is_integral<X>::value && std::is_integral<Y>::value) return (uint8_t)(x & y); else return 0; }
}
template <class X, class Y> static ndarray apply(int op, const X &x, const Y &y) {
    switch (op) { case GT: return x > y; case GE: return x >= y; case LT: return x < y; case LE: return x <= y; case EQ: return x == y; default: return x & y; }
}
template <class S> static S scalar() { if constexpr (std::is_floating_point<S>::value) return vf_realf("s", -50, 50); else return (S)vf_int("s", 0, 255); }
template <class A, class S> static void sc(int ns, int nl, int ncmp) {
    int op = vf_pick("op", 0, ncmp - 1), left = vf_pick("scalar_left", 0, 1); Shape sh = shape_of(vf_pick("shape", 0, ns - 1)); int lay = vf_pick("layout", 0, nl - 1);
    auto a = make<A>("a", sh, lay); S s = scalar<S>();
    vf_assume(view_ok(a));
    ndarray r = left ? apply<S, ndarray>(op, s, a.v) : apply<ndarray, S>(op, a.v, s);
    vf_check(same(r.shape(), sh), "mask has the array's shape");
    vf_check(r.dtype() == dt<uint8_t>(), "mask is 8-bit");
    for (int64_t n = 0; n < count(sh); ++n) vf_check(get<uint8_t>(r, n) == (left ? holds(op, s, a.at(n)) : holds(op, a.at(n), s)), "mask element");
    a.unchanged("operand unmodified");
    vf_cover("end");
}
struct P2 { Shape a, b; bool ok; };
static P2 pairs(int64_t i) {
    switch (i) {
    case 0: return {{5}, {5}, true}; case 1: return {{2, 3}, {2, 3}, true}; case 2: return {{2, 3}, {1, 3}, true}; case 3: return {{2, 3}, {3}, true};
    case 4: return {{2, 1}, {1, 3}, true}; case 5: return {{3}, {2, 3}, true}; case 6: return {{2, 2, 3}, {2, 1, 3}, true}; case 7: return {{2, 3}, {2, 2}, false}; case 8: return {{9}, {9}, true};
    default: return {{2, 3}, {2}, false};
    }
}
template <class A, class B> static void aa(int ns, int ncmp) {
    int op = vf_pick("op", 0, ncmp - 1); P2 s = pairs(vf_pick("shapes", 0, ns - 1)); int la, lb;
    if (THOROUGH) { la = vf_pick("layout_a", 0, NLAYOUTS - 1); lb = vf_pick("layout_b", 0, NLAYOUTS - 1); }
    else { static const int L[][2] = {{DENSE, OFFSET}, {OFFSET, STRIDED}, {STRIDED, DENSE}, {NESTED, COLS}, {MIDDLE, FAR}, {FAR, HEAD}}; int i = vf_pick("layouts", 0, 5); la = L[i][0]; lb = L[i][1]; }
    auto a = make<A>("a", s.a, la); auto b = make<B>("b", s.b, lb);
    vf_assume(view_ok(a)); vf_assume(view_ok(b));
    if (!s.ok) { vf_check(throws([&] { apply<ndarray, ndarray>(op, a.v, b.v); }), "incompatible shapes are rejected"); vf_cover("end"); return; }
    ndarray r = apply<ndarray, ndarray>(op, a.v, b.v);
    size_t nd = std::max(s.a.size(), s.b.size()); Shape bs(nd);
    auto dim = [](const Shape &x, size_t i) { return i < x.size() ? x[x.size() - 1 - i] : 1; };
    for (size_t i = 0; i < nd; ++i) bs[nd - 1 - i] = dim(s.a, i) == 1 ? dim(s.b, i) : dim(s.a, i);
    vf_check(same(r.shape(), bs), "mask has the broadcast shape");
    vf_check(r.dtype() == dt<uint8_t>(), "mask is 8-bit");
    auto el = [](const Shape &c, const Shape &x) { Shape k(x.size()); for (size_t i = 0; i < x.size(); ++i) k[i] = x[i] == 1 ? 0 : c[i + c.size() - x.size()]; return k; };
    for (int64_t n = 0; n < count(bs); ++n) { auto c = coords(n, bs); vf_check(get<uint8_t>(r, n) == holds(op, a.at(el(c, s.a)), b.at(el(c, s.b))), "mask element"); }
    a.unchanged("first operand unmodified"); b.unchanged("second operand unmodified");
    vf_cover("end");
}
ENTRY e_sc_f32() { sc<float, float>(NS, NLAYOUTS, EQ + 1); }
ENTRY e_sc_u8() { sc<uint8_t, uint8_t>(THOROUGH ? NS : 4, THOROUGH ? NLAYOUTS : 4, NCMP); }
ENTRY e_sc_f32_i32() { sc<float, int32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, EQ + 1); }
ENTRY e_sc_u32() { sc<uint32_t, uint32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, EQ + 1); }
ENTRY e_sc_i32() { sc<int32_t, int32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, EQ + 1); }
ENTRY e_sc_i64() { sc<int64_t, int32_t>(THOROUGH ? NS : 2, THOROUGH ? NLAYOUTS : 2, NCMP); }
ENTRY e_aa_f32() { aa<float, float>(10, EQ + 1); }
ENTRY e_aa_u8() { aa<uint8_t, uint8_t>(10, NCMP); }
ENTRY e_aa_f32_u8() { aa<float, uint8_t>(THOROUGH ? 10 : 3, EQ + 1); }
ENTRY e_large() { // up to four axes with at least three elements along those that carry
    SPARSE = 7; static const P2 S[] = {{{4, 3, 5}, {}, true}, {{3, 4, 3, 3}, {}, true}, {{7, 11}, {}, true}, {{4, 3, 5}, {4, 3, 5}, true}, {{4, 1, 5}, {4, 3, 1}, true}, {{3, 4, 3}, {4, 1}, true}, {{3, 1, 4, 1}, {5, 1, 3}, true}};
    static const int L[][2] = {{DENSE, DENSE}, {OFFSET, STRIDED}, {NESTED, COLS}, {STRIDED, DENSE}}; int op = vf_pick("op", 0, AND); P2 s = S[vf_pick("shapes", 0, 6)]; auto l = L[vf_pick("layouts", 0, 3)]; bool sc = s.b.empty(), left = sc && vf_pick("scalar_left", 0, 1); if (sc) s.b = {1};
    auto a = make<uint8_t>("a", s.a, l[0]); auto b = make<uint8_t>("b", s.b, sc ? DENSE : l[1]); vf_assume(view_ok(a) && view_ok(b)); uint8_t x = b.at((int64_t)0); ndarray r = left ? apply<uint8_t, ndarray>(op, x, a.v) : sc ? apply<ndarray, uint8_t>(op, a.v, x) : apply<ndarray, ndarray>(op, a.v, b.v);
    size_t nd = std::max(s.a.size(), s.b.size()); Shape bs(nd); auto dim = [](const Shape &x, size_t i) { return i < x.size() ? x[x.size() - 1 - i] : 1; }; for (size_t i = 0; i < nd; ++i) bs[nd - 1 - i] = dim(s.a, i) == 1 ? dim(s.b, i) : dim(s.a, i);
    bool shape = same(r.shape(), bs); vf_check(shape, "mask has the broadcast shape"); vf_check(r.dtype() == dt<uint8_t>(), "mask is 8-bit"); if (!shape) return; auto el = [](const Shape &c, const Shape &x) { Shape k(x.size()); for (size_t i = 0; i < x.size(); ++i) k[i] = x[i] == 1 ? 0 : c[i + c.size() - x.size()]; return k; };
    for (int64_t n = 0; n < count(bs); ++n) { auto c = coords(n, bs); uint8_t p = a.at(el(c, s.a)), q = b.at(el(c, s.b)); vf_check(get<uint8_t>(r, n) == (left ? holds(op, q, p) : holds(op, p, q)), "mask element"); } a.unchanged("operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end");
}
ENTRY e_ranks() { // five and six axes
    SPARSE = 7; static const P2 S[] = {{{2, 3, 2, 2, 3}, {}, true}, {{2, 2, 1, 2, 3, 2}, {}, true}, {{2, 3, 2, 2, 3}, {2, 3, 2, 2, 3}, true}, {{2, 3, 2, 2, 3}, {3, 1, 2, 1}, true}, {{2, 2, 1, 2, 3, 2}, {2, 2, 3, 2, 3, 2}, true}};
    static const int L[][2] = {{DENSE, MIDDLE}, {MIDDLE, COLS}, {COLS, ROWS}, {ROWS, DENSE}}; int op = vf_pick("op", 0, AND); P2 s = S[vf_pick("shapes", 0, 4)]; auto l = L[vf_pick("layouts", 0, 3)]; bool sc = s.b.empty(), left = sc && vf_pick("scalar_left", 0, 1); if (sc) s.b = {1};
    auto a = make<uint8_t>("a", s.a, l[0]); auto b = make<uint8_t>("b", s.b, sc ? DENSE : l[1]); vf_assume(view_ok(a) && view_ok(b)); uint8_t x = b.at((int64_t)0); ndarray r = left ? apply<uint8_t, ndarray>(op, x, a.v) : sc ? apply<ndarray, uint8_t>(op, a.v, x) : apply<ndarray, ndarray>(op, a.v, b.v);
    size_t nd = std::max(s.a.size(), s.b.size()); Shape bs(nd); auto dim = [](const Shape &x, size_t i) { return i < x.size() ? x[x.size() - 1 - i] : 1; }; for (size_t i = 0; i < nd; ++i) bs[nd - 1 - i] = dim(s.a, i) == 1 ? dim(s.b, i) : dim(s.a, i);
    bool shape = same(r.shape(), bs); vf_check(shape, "mask has the broadcast shape"); vf_check(r.dtype() == dt<uint8_t>(), "mask is 8-bit"); if (!shape) return; auto el = [](const Shape &c, const Shape &x) { Shape k(x.size()); for (size_t i = 0; i < x.size(); ++i) k[i] = x[i] == 1 ? 0 : c[i + c.size() - x.size()]; return k; };
    for (int64_t n = 0; n < count(bs); ++n) { auto c = coords(n, bs); uint8_t p = a.at(el(c, s.a)), q = b.at(el(c, s.b)); vf_check(get<uint8_t>(r, n) == (left ? holds(op, q, p) : holds(op, p, q)), "mask element"); } a.unchanged("operand unmodified"); b.unchanged("second operand unmodified"); vf_cover("end");
}
ENTRY e_nan() { // every value of a float, also infinite ones and those that are not numbers
    int op = vf_pick("op", 0, EQ), side = vf_pick("side", 0, 2); ndarray a({1, 2}, dt<float>(), CPU()), b({1, 2}, dt<float>(), CPU()); float x[2] = {vf_fp32("a"), 1.5f}, y[2] = {vf_fp32("b"), __builtin_nanf("")}; for (int i = 0; i < 2; ++i) a.data_ptr<float>()[i] = x[i], b.data_ptr<float>()[i] = y[i];
    ndarray r = side == 0 ? apply<ndarray, ndarray>(op, a, b) : side == 1 ? apply<ndarray, float>(op, a, y[0]) : apply<float, ndarray>(op, x[0], b);
    vf_check(get<uint8_t>(r, 0) == holds(op, x[0], y[0]), "mask element"); vf_check(get<uint8_t>(r, 1) == (side == 0 ? 0 : side == 1 ? holds(op, x[1], y[0]) : 0), "mask element next to it"); vf_cover("end");
}
ENTRY e_lengths() { // rows of every length around the blocks in which they may be processed
    SPARSE = 5; int n = vf_pick("length", 1, THOROUGH ? 40 : 18), form = vf_pick("form", 0, 3); static const int L[][2] = {{DENSE, DENSE}, {OFFSET, STRIDED}, {NESTED, COLS}, {STRIDED, DENSE}}; auto a = make<uint8_t>("a", {3, n}, L[form][0]), b = make<uint8_t>("b", form == 1 ? Shape{n} : Shape{3, n}, L[form][1]); vf_assume(view_ok(a)); vf_assume(view_ok(b)); uint8_t s = b.at((int64_t)0);
    int op = vf_pick("op", 0, 1) ? AND : GT, sc = vf_pick("scalar", 0, 2); ndarray r = sc == 0 ? apply<ndarray, ndarray>(op, a.v, b.v) : sc == 1 ? apply<ndarray, uint8_t>(op, a.v, s) : apply<uint8_t, ndarray>(op, s, a.v); bool shape = same(r.shape(), {3, n}); vf_check(shape, "mask has the array's shape"); if (!shape) return;
    for (int64_t k = 0; k < 3 * n; ++k) { uint8_t x = a.at(k), y = sc ? s : b.at(form == 1 ? k % n : k); vf_check(get<uint8_t>(r, k) == (sc == 2 ? holds(op, y, x) : holds(op, x, y)), "mask element"); } vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const P2 S[] = {{{70000}, {70000}, true}, {{300, 260}, {260}, true}, {{2, 66000}, {2, 1}, true}, {{260, 2, 130}, {1}, true}}; int k = vf_pick("shapes", 0, 3), sc = k == 3 ? 1 + vf_pick("scalar_left", 0, 1) : 0; P2 s = S[k];
    auto a = make<uint8_t>("a", s.a, k % 2 ? OFFSET : DENSE), b = make<uint8_t>("b", s.b, k == 1 ? STRIDED : k == 2 ? COLS : DENSE); vf_assume(view_ok(a)); vf_assume(view_ok(b)); uint8_t x = sc ? 50 : 0; int op = k % 2 ? AND : GT; ndarray r = sc == 0 ? apply<ndarray, ndarray>(op, a.v, b.v) : sc == 1 ? apply<ndarray, uint8_t>(op, a.v, x) : apply<uint8_t, ndarray>(op, x, a.v);
    bool shape = same(r.shape(), s.a); vf_check(shape, "mask has the array's shape"); if (!shape) return; auto at = indices(b, s.a), in = places(r, s.a); auto p = r.data_ptr<uint8_t>();
    for (int64_t n = 0; n < count(s.a); ++n) { uint8_t u = a.at(n), v = sc ? x : b.at(at[n]); vf_check(p[in[n]] == (sc == 2 ? holds(op, v, u) : holds(op, u, v)), "mask element"); } a.unchanged("operand unmodified"); vf_cover("end");
}
