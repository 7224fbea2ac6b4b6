// A04: slices denote exactly the selected elements; writes through them touch nothing else.
#include "arr.hpp"
// The selection start:end:stride of an axis with n elements (negative values count from the end, end is clamped to n).
static bool selection(int64_t n, int64_t &start, int64_t &end, int64_t stride, int64_t &len) {
    if (start < 0) start += n;
    if (end < 0) end += n;
    if (start < 0 || start > n || stride < 1) return false;
    if (end > n) end = n;
    if (end < start) return false;
    len = (end - start + stride - 1) / stride;
    return true;
}
// any start and end on one axis of a 2-d parent (symbolic), every stride: extent, step and first element
ENTRY e_geometry() {
    int64_t n = THOROUGH ? vf_pick("n", 1, 8) : 2 * vf_pick("n", 0, 2) + 1, dim = vf_pick("dim", 0, 1), stride = vf_pick("stride", -1, THOROUGH ? 5 : 3);
    int64_t start = vf_int("start", -n - 1, n + 1), end = vf_int("end", -n - 1, n + 2);
    Shape ps = dim ? Shape{2, n} : Shape{n, 2};
    ndarray p(ps, dt<float>(), CPU());
    int64_t s = start, e = end, len = 0; bool ok = selection(n, s, e, stride, len);
    bool thrown = false; Shape sh, st, of;
    try { auto v = bland::slice(p, dim, start, end, stride); sh = v.shape(); st = v.strides(); of = v.offsets(); } catch (const std::exception &) { thrown = true; }
    if (!ok) { vf_check(thrown, "an invalid range is rejected"); vf_cover("rejected"); return; }
    vf_check(!thrown, "a valid range is accepted");
    vf_check(sh[dim] == len, "slice length");
    vf_check(sh[1 - dim] == 2, "other axis keeps its length");
    Shape pst = p.strides();
    // element k of the slice is parent element s + k*stride
    vf_check(of[0] + of[1] == s * pst[dim], "first selected element");
    if (len > 1) vf_check(st[dim] == stride * pst[dim], "step between selected elements");
    vf_check(st[1 - dim] == pst[1 - dim], "step along the other axis");
    vf_check(same(p.shape(), ps) && same(p.strides(), pst) && p.offsets() == Shape({0, 0}), "the parent keeps its description");
    vf_cover("end");
}
ENTRY e_default_end() { // an open-ended specification reaches the end of the axis
    int64_t n = vf_pick("n", 1, 6), start = vf_int("start", 0, 6); vf_assume(start <= n);
    ndarray p({n}, dt<float>(), CPU());
    auto v = p.slice(slice_spec{0, start});
    vf_check(v.shape()[0] == n - start, "slice length"); vf_check(v.offsets()[0] == start, "first selected element");
    vf_cover("end");
}
ENTRY e_bad_dim() {
    int64_t dim = vf_pick("dim", -3, 4); ndarray p({3, 2}, dt<float>(), CPU());
    bool t = throws([&] { cut(p, dim, 0, 1); });
    vf_check(t == !(dim >= 0 && dim < 2), "slicing an axis the array lacks is rejected"); vf_cover("end");
}
// two-step slices compose: element (i,j) is the parent element selected twice, and reads give its value
ENTRY e_compose() {
    int64_t s1 = vf_pick("s1", 0, 2), t1 = vf_pick("t1", 1, 2), s2 = vf_pick("s2", 0, 2), t2 = vf_pick("t2", 1, 3), dim = vf_pick("dim", 0, 1), form = vf_pick("form", 0, 2);
    Shape ps = dim ? Shape{2, 9} : Shape{9, 2};
    auto a = make<float>("a", ps, DENSE);
    ndarray v = a.v;
    if (form == 0) v = cut(cut(a.v, dim, s1, 9, t1), dim, s2, 9, t2);
    else if (form == 1) v = bland::slice(a.v, slice_spec{dim, s1, 9, t1}, slice_spec{dim, s2, 9, t2});
    else v = a.v.slice(slice_spec{dim, s1, 9, t1}).slice(slice_spec{dim, s2, 9, t2});
    int64_t l1 = (9 - s1 + t1 - 1) / t1, l2 = s2 > l1 ? 0 : (l1 - s2 + t2 - 1) / t2;
    vf_check(v.shape()[dim] == l2 && v.shape()[1 - dim] == 2, "extent of a slice of a slice");
    for (int64_t k = 0; k < l2; ++k) for (int64_t o = 0; o < 2; ++o) {
        Shape c = dim ? Shape{o, k} : Shape{k, o}, pc = c; pc[dim] = s1 + t1 * (s2 + k * t2);
        vf_close(v.data_ptr<float>()[pos(v, c)], a.at(pc), 0, "element of a slice of a slice");
        vf_close(v.scalarize<float>(c), a.at(pc), 0, "element read by index");
    }
    a.unchanged("slicing leaves the elements alone"); vf_cover("end");
}
// two axes at once
ENTRY e_two_axes() {
    int64_t s0 = vf_pick("s0", 0, 2), e0 = vf_pick("e0", 2, 4), s1 = vf_pick("s1", 0, 2), e1 = vf_pick("e1", 2, 5), t1 = vf_pick("t1", 1, 2), form = vf_pick("form", 0, 1);
    auto a = make<float>("a", {4, 5}, DENSE);
    ndarray v = form ? ndarray(a.v.slice(slice_spec{1, s1, e1, t1}, slice_spec{0, s0, e0})) : ndarray(bland::slice(a.v, slice_spec{0, s0, e0}, slice_spec{1, s1, e1, t1}));
    int64_t n0 = e0 - s0, n1 = (e1 - s1 + t1 - 1) / t1;
    vf_check(v.shape() == Shape({n0, n1}), "extents");
    for (int64_t i = 0; i < n0; ++i) for (int64_t j = 0; j < n1; ++j) vf_close(v.data_ptr<float>()[pos(v, {i, j})], a.at(Shape{s0 + i, s1 + j * t1}), 0, "selected element");
    vf_cover("end");
}
// writing: fill / assign array / assign slice / assign scalar expression
template <class T> static void writes(int nl) {
    static const Shape S[] = {{2, 3}, {4}, {2, 2, 3}, {3, 1}, {1, 9}};
    int lay = vf_pick("layout", 0, nl - 1), how = vf_pick("how", 0, 3); Shape sh = S[vf_pick("shape", 0, 4)];
    auto a = make<T>("a", sh, lay); vf_assume(view_ok(a));
    ndarray_slice dst(a.v); T *p = a.parent.template data_ptr<T>();
    if (how == 0) {
        T x = fresh<T>("x"); bland::fill(a.v, x);
        for (auto w : a.where) vf_check(p[w] == x, "filled element");
    } else {
        Shape rs = sh; if (how == 2) rs[0] = 1;                  // broadcast the right-hand side
        auto b = make<T>("b", rs, how == 3 ? STRIDED : (lay + 2) % NLAYOUTS); vf_assume(view_ok(b));
        if (how == 3) { ndarray_slice src(b.v); dst = src; } else dst = b.v;
        for (int64_t n = 0; n < a.n(); ++n) { auto c = coords(n, sh); if (how == 2) c[0] = 0; vf_check(p[a.where[n]] == b.at(c), "assigned element"); }
        b.unchanged("right-hand side unmodified");
    }
    a.outside_unchanged("element outside the slice");
    vf_cover("end");
}
ENTRY e_write_f32() { writes<float>(NLAYOUTS); }
ENTRY e_write_u8() { writes<uint8_t>(NLAYOUTS); }
ENTRY e_assign_mismatch() {
    auto a = make<float>("a", {2, 3}, vf_pick("layout", 0, NLAYOUTS - 1)); ndarray_slice d(a.v);
    static const Shape S[] = {{2, 2}, {3, 3}, {3, 2}, {2, 3, 1}, {4}};
    auto b = make<float>("b", S[vf_pick("shape", 0, 4)], DENSE);
    vf_check(throws([&] { d = b.v; }), "assigning an array of another shape is rejected");
    a.unchanged("destination untouched by a rejected assignment"); vf_cover("end");
}
// three to six axes, one of them or all of them cut, also by negative positions
ENTRY e_ranks() {
    SPARSE = 13; static const Shape S[] = {{4, 3, 5}, {3, 4, 3, 3}, {3, 3, 2, 4, 3}, {2, 3, 1, 2, 3, 3}}; Shape sh = S[vf_pick("shape", 0, 3)], of(sh.size()), st(sh.size(), 1), n = sh; int64_t dim = vf_pick("dim", 0, (int64_t)sh.size()), form = vf_pick("form", 0, 2), write = vf_pick("write", 0, 2); auto a = make<float>("a", sh, DENSE); ndarray v = a.v;
    for (size_t d = 0; d < sh.size(); ++d) if ((int64_t)d == dim || dim == (int64_t)sh.size()) { int64_t s = form == 1 && sh[d] > 1 ? 1 : 0, e = form == 2 && sh[d] > 2 ? sh[d] - 1 : sh[d], t = form == 0 ? 2 : 1; of[d] = s; st[d] = t; n[d] = (e - s + t - 1) / t; v = ndarray(form == 1 ? cut(v, d, s - sh[d], e) : form == 2 ? cut(v, d, 0, e == sh[d] ? e : -1) : cut(v, d, s, e, t)); }
    bool shape = same(v.shape(), n); vf_check(shape, "extents"); if (!shape) return;
    auto parent = [&](int64_t k) { Shape c = coords(k, n); for (size_t d = 0; d < c.size(); ++d) c[d] = of[d] + c[d] * st[d]; return rowmajor(c, sh); }; std::vector<float> want = a.init; int64_t m = count(n);
    for (int64_t k = 0; k < m; ++k) vf_check(v.data_ptr<float>()[pos(v, coords(k, n))] == a.init[parent(k)], "selected element");
    if (write == 1) { float x = vf_realf("x", 0, 1); bland::fill(v, x); for (int64_t k = 0; k < m; ++k) want[parent(k)] = x; }
    if (write == 2) { auto b = make<float>("b", n, MIDDLE); vf_assume(view_ok(b)); ndarray_slice dst(v); dst = b.v; for (int64_t k = 0; k < m; ++k) want[parent(k)] = b.at(k); b.unchanged("right-hand side unmodified"); }
    for (size_t i = 0; i < want.size(); ++i) vf_check(a.v.data_ptr<float>()[i] == want[i], "selected elements written, and no others"); vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const Shape S[] = {{70000}, {300, 260}, {2, 66000}, {260, 2, 130}}; int k = vf_pick("shape", 0, 3), how = vf_pick("how", 0, 2); Shape sh = S[k]; auto a = make<float>("a", sh, k == 0 ? OFFSET : k == 1 ? COLS : k == 2 ? OFFSET : ROWS); vf_assume(view_ok(a)); std::vector<float> want = a.init;
    if (how == 0) { float x = vf_realf("x", 0, 1); bland::fill(a.v, x); for (auto w : a.where) want[w] = x; } else { Shape bs = sh; if (how == 2) bs[0] = 1; auto b = make<float>("b", bs, DENSE); vf_assume(view_ok(b)); ndarray_slice dst(a.v); dst = b.v; for (int64_t n = 0; n < a.n(); ++n) want[a.where[n]] = b.init[n % (int64_t)b.init.size()]; }
    auto p = a.parent.data_ptr<float>(); for (size_t i = 0; i < want.size(); ++i) vf_check(p[i] == want[i], "selected elements written, and no others"); vf_cover("end");
}
// slices that begin beyond 2^31 elements: reads and writes reach the selected elements
ENTRY e_far() {
    const int64_t FAR = 3ll << 30; int64_t back = vf_pick("rows", 0, 1) ? 1 : 0, op = vf_pick("op", 0, 9);
    float buf[6]; for (auto &x : buf) x = vf_realf("v", 1, 100);
    int64_t shape[2] = {back ? FAR / 2 + 3 : 3, back ? 2 : FAR + 2}; // the buffer holds the last elements of the array (the others are never touched)
    DLManagedTensor t; t.manager_ctx = nullptr; t.deleter = nullptr; t.dl_tensor.device = ndarray::dev::cpu; t.dl_tensor.ndim = 2; t.dl_tensor.dtype = ndarray::datatype::float32; t.dl_tensor.shape = shape; t.dl_tensor.strides = nullptr; t.dl_tensor.byte_offset = 0;
    if (!back) shape[0] = 1;
    t.dl_tensor.data = (void *)((uintptr_t)buf - (uintptr_t)FAR * 4);
    ndarray a(t); ndarray v = back ? ndarray(cut(a, 0, FAR / 2, FAR / 2 + 2)) : ndarray(cut(a, 1, FAR, FAR + 2));
    int64_t n = back ? 4 : 2; vf_check(v.numel() == n, "size of the slice"); if (v.numel() != n) return;
    auto all = [&](const ndarray &r, auto f) { for (int64_t i = 0; i < n; ++i) vf_close(get<float>(r, i), f(buf[i]), 1e-3, "element of a far slice"); };
    switch (op) {
    case 0: all(bland::copy(v), [](float x) { return x; }); break;
    case 1: all(bland::add(v, v), [](float x) { return x + x; }); break;
    case 2: all(bland::multiply(v, 2.0f), [](float x) { return 2 * x; }); break;
    case 3: all(bland::square(v), [](float x) { return x * x; }); break;
    case 4: { float b[6]; for (int i = 0; i < 6; ++i) b[i] = buf[i]; float w = vf_realf("w", 0, 1); bland::fill(v, w); for (int i = 0; i < n; ++i) vf_check(buf[i] == w, "far slice written"); for (int i = n; i < 6; ++i) vf_check(buf[i] == b[i], "nothing else written"); } break;
    case 5: { float s = 0; for (int i = 0; i < n; ++i) s += buf[i]; vf_close(bland::sum(v).scalarize<float>(), s, 1e-3, "sum of a far slice"); } break;
    case 6: for (int64_t i = 0; i < n; ++i) vf_check(v.scalarize<float>(coords(i, v.shape())) == buf[i], "element of a far slice"); break;
    case 7: { auto m = bland::greater_than(v, 50.0f); for (int64_t i = 0; i < n; ++i) vf_check((get<uint8_t>(m, i) != 0) == (buf[i] > 50), "mask of a far slice"); } break;
    case 8: { ndarray w(v.shape(), dt<float>(), CPU()); for (int64_t i = 0; i < n; ++i) w.data_ptr<float>()[i] = vf_realf("w", 0, 1); bland::copy(w, v); for (int64_t i = 0; i < n; ++i) vf_check(buf[i] == w.data_ptr<float>()[i], "far slice written"); } break;
    case 9: { auto r = v.reshape({n}); for (int64_t i = 0; i < n; ++i) vf_check(get<float>(r, i) == buf[i], "element of a reshaped far slice"); } break;
    }
    vf_cover("end");
}
