// A06: reshape, squeeze, unsqueeze keep the row-major element sequence or throw.
#include "arr.hpp"
static void same_sequence(const Arr<float> &a, const ndarray &r, const Shape &want) {
    vf_check(same(r.shape(), want), "requested shape");
    vf_check(r.ndim() == (int64_t)want.size() && r.strides().size() == want.size() && r.offsets().size() == want.size() && r.numel() == a.n(), "rank and element count");
    for (int64_t n = 0; n < a.n(); ++n) vf_close(get<float>(r, n), a.at(n), 0, "element in row-major order");
}
struct R { Shape from, to; };
ENTRY e_reshape() {
    static const R T[] = {{{6}, {2, 3}}, {{6}, {6}}, {{2, 3}, {6}}, {{2, 3}, {3, 2}}, {{2, 3}, {2, 3}}, {{12}, {2, 3, 2}}, {{2, 3, 2}, {12}}, {{2, 3, 2}, {6, 2}}, {{2, 3, 2}, {2, 6}}, {{2, 6}, {2, 3, 2}}, {{4, 3}, {2, 2, 3}}, {{4, 3}, {3, 4}}, {{1, 6}, {6}}, {{6, 1}, {6}}, {{6}, {1, 6}}, {{6}, {6, 1}}, {{2, 1, 3}, {2, 3}}, {{1}, {1, 1}}, {{4, 2}, {2, 2, 2}}};
    auto t = T[vf_pick("shapes", 0, 18)]; int lay = vf_pick("layout", 0, NLAYOUTS - 1);
    auto a = make<float>("a", t.from, lay); vf_assume(view_ok(a));
    ndarray v = a.v; bool thrown = false; ndarray r = v;
    try { r = v.reshape(t.to); } catch (const std::exception &) { thrown = true; }
    bool dense = lay == DENSE;
    if (dense && t.from.size() != t.to.size()) vf_check(!thrown, "a dense array can always be reshaped");
    if (!thrown) { same_sequence(a, r, t.to); same_sequence(a, v, t.to); vf_cover("reshaped"); }
    else { vf_check(same(v.shape(), t.from), "a rejected reshape leaves the array as it was"); for (int64_t n = 0; n < a.n(); ++n) vf_close(get<float>(v, n), a.at(n), 0, "a rejected reshape leaves the elements in place"); }
    vf_check(same(a.v.shape(), t.from), "other handles keep their shape");
    for (int64_t n = 0; n < a.n(); ++n) vf_close(get<float>(a.v, n), a.at(n), 0, "other handles keep their elements");
    a.unchanged("elements unmodified");
    vf_cover("end");
}
ENTRY e_reshape_count() { // any other element count is rejected
    int64_t x = vf_int("x", 0, 20), y = vf_int("y", 0, 20); int lay = vf_pick("layout", 0, 2);
    auto a = make<float>("a", {2, 3}, lay); vf_assume(x * y != 6); ndarray v = a.v;
    vf_check(throws([&] { v.reshape({x, y, 1}); }), "a different element count is rejected"); vf_cover("end");
}
ENTRY e_squeeze() {
    static const Shape S[] = {{1, 3}, {3, 1}, {2, 1, 3}, {1, 1, 2}, {2, 3}, {2, 2, 1}, {1}};
    Shape sh = S[vf_pick("shape", 0, 6)]; int lay = vf_pick("layout", 0, NLAYOUTS - 1); int64_t ax = vf_pick("axis", -5, 4);
    auto a = make<float>("a", sh, lay); vf_assume(view_ok(a)); ndarray v = a.v;
    int64_t nd = sh.size(), k = ax < 0 ? ax + nd : ax; bool ok = k >= 0 && k < nd && sh[k] == 1;
    bool thrown = false; ndarray r = v; try { r = v.squeeze(ax); } catch (const std::exception &) { thrown = true; }
    vf_check(thrown == !ok, "exactly the size-1 axes can be squeezed");
    if (ok) { Shape want = sh; want.erase(want.begin() + k); if (!want.empty()) { same_sequence(a, r, want); same_sequence(a, v, want); } }
    vf_check(same(a.v.shape(), sh), "other handles keep their shape"); a.unchanged("elements unmodified"); vf_cover("end");
}
ENTRY e_unsqueeze() {
    static const Shape S[] = {{3}, {2, 3}, {3, 1}, {2, 2, 2}};
    Shape sh = S[vf_pick("shape", 0, 3)]; int lay = vf_pick("layout", 0, NLAYOUTS - 1); int64_t ax = vf_pick("axis", 0, 3);
    auto a = make<float>("a", sh, lay); vf_assume(view_ok(a)); vf_assume(ax <= (int64_t)sh.size()); ndarray v = a.v;
    ndarray r = v.unsqueeze(ax); Shape want = sh; want.insert(want.begin() + ax, 1);
    same_sequence(a, r, want); same_sequence(a, v, want); vf_check(same(a.v.shape(), sh), "other handles keep their shape"); a.unchanged("elements unmodified");
    ndarray q = r; q = q.squeeze(ax); same_sequence(a, q, sh); // and back
    vf_cover("end");
}
ENTRY e_unsqueeze_bad() { int64_t ax = vf_pick("axis", -3, 6); auto a = make<float>("a", {2, 2}, DENSE); ndarray v = a.v; vf_assume(ax < 0 || ax > 2);
    vf_check(throws([&] { v.unsqueeze(ax); }), "an axis position outside the rank is rejected"); vf_cover("end"); }
ENTRY e_chain() { // slice, unsqueeze, slice, squeeze: the elements stay the selected ones
    int s = vf_pick("s", 0, 2), ax = vf_pick("axis", 0, 2), t = vf_pick("t", 0, 1);
    auto a = make<float>("a", {4, 3}, OFFSET); vf_assume(view_ok(a)); ndarray v = a.v;
    ndarray w = cut(v, 0, s, s + 2); w = w.unsqueeze(ax); int64_t d = ax == 0 ? 1 : 0; ndarray u = cut(w, d, t, t + 1); // one row
    u = u.squeeze(d); Shape us = u.shape(); vf_check(count(us) == 3, "three elements left");
    for (int64_t n = 0; n < 3; ++n) vf_close(get<float>(u, n), a.at(Shape{s + t, n}), 0, "element of the selected row"); vf_cover("end");
}
ENTRY e_large() { // up to five axes with at least three elements along those that carry
    SPARSE = 7; static const R T[] = {{{60}, {4, 3, 5}}, {{4, 3, 5}, {60}}, {{4, 3, 5}, {5, 12}}, {{12, 5}, {4, 3, 5}}, {{3, 4, 3, 2}, {6, 12}}, {{3, 4, 3, 2}, {3, 2, 2, 3, 2}}, {{3, 20}, {3, 4, 5}}, {{20, 3}, {4, 5, 3}}, {{4, 3, 5}, {4, 3, 1, 5}}, {{4, 3, 5}, {3, 4, 5}}}; auto t = T[vf_pick("shapes", 0, 9)]; int lay = vf_pick("layout", 0, NLAYOUTS - 1);
    auto a = make<float>("a", t.from, lay); vf_assume(view_ok(a)); ndarray v = a.v, r = v; bool thrown = throws([&] { r = v.reshape(t.to); }); if (lay == DENSE) vf_check(!thrown, "a dense array can always be reshaped"); if (!thrown) same_sequence(a, r, t.to); vf_check(same(a.v.shape(), t.from), "other handles keep their shape"); a.unchanged("elements unmodified");
    for (int64_t x = 0; x <= (int64_t)t.from.size(); ++x) { ndarray u = a.v, w = u.unsqueeze(x); Shape want = t.from; want.insert(want.begin() + x, 1); same_sequence(a, w, want); ndarray q = w, z = q.squeeze(x); same_sequence(a, z, t.from); } vf_cover("end");
}
ENTRY e_ranks() { // five and six axes
    SPARSE = 7; static const R T[] = {{{2, 3, 2, 2, 3}, {72}}, {{2, 3, 2, 2, 3}, {3, 2, 3, 2, 2}}, {{2, 2, 1, 2, 3, 2}, {4, 12}}, {{2, 2, 1, 2, 3, 2}, {2, 2, 2, 3, 2}}, {{6, 8}, {2, 3, 2, 2, 1, 2}}}; auto t = T[vf_pick("shapes", 0, 4)]; int lay = SOME_LAYOUTS[vf_pick("layout", 0, 3)];
    auto a = make<float>("a", t.from, lay); vf_assume(view_ok(a)); ndarray v = a.v, r = v; bool thrown = throws([&] { r = v.reshape(t.to); }); if (lay == DENSE) vf_check(!thrown, "a dense array can always be reshaped"); if (!thrown) same_sequence(a, r, t.to); vf_check(same(a.v.shape(), t.from), "other handles keep their shape"); a.unchanged("elements unmodified");
    for (int64_t x = 0; x <= (int64_t)t.from.size(); ++x) { ndarray u = a.v, w = u.unsqueeze(x); Shape want = t.from; want.insert(want.begin() + x, 1); same_sequence(a, w, want); ndarray q = w, z = q.squeeze(x); same_sequence(a, z, t.from); } vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    SPARSE = 16384; static const R T[] = {{{70000}, {70, 1000}}, {{300, 260}, {78000}}, {{2, 66000}, {66000, 2}}, {{260, 2, 130}, {520, 130}}}; int k = vf_pick("shapes", 0, 3), sliced = vf_pick("sliced", 0, 1); auto t = T[k]; auto a = make<float>("a", t.from, sliced ? OFFSET : DENSE); vf_assume(view_ok(a)); ndarray v = a.v, r = v;
    auto check = [&](const ndarray &x, const Shape &s) { bool shape = same(x.shape(), s) && x.numel() == a.n(); vf_check(shape, "requested shape"); if (!shape) return; auto in = places(x, s); auto p = x.data_ptr<float>(); for (int64_t n = 0; n < a.n(); ++n) vf_check(p[in[n]] == a.at(n), "element in row-major order"); };
    bool thrown = throws([&] { r = v.reshape(t.to); }); vf_check(sliced || !thrown, "a dense array can always be reshaped"); if (!thrown) check(r, t.to); ndarray u = a.v, w = u.unsqueeze(1); Shape want = t.from; want.insert(want.begin() + 1, 1); check(w, want); a.unchanged("elements unmodified"); vf_cover("end");
}
