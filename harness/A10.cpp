// A10: deferred arrays evaluate to their source, and run it as often as their policy says.
#include "arr.hpp"
#include <bland/ndarray_deferred.hpp>
using bland::ndarray_deferred;
using policy = ndarray_deferred::eval_policy;
static const int LEN = THOROUGH ? 5 : 4, MAXRUN = LEN + 2;
struct World {
    float v[MAXRUN][2]; int runs = 0, throw_at = -1;
    World() { for (auto &r : v) for (auto &x : r) x = vf_realf("v", -100, 100); }
    std::function<ndarray()> source() { return [this]() {
        int k = runs++; if (k == throw_at) throw std::runtime_error("source");
        vf_check(k < MAXRUN, "evaluations within the history");
        ndarray a({2}, dt<float>(), CPU()); for (int i = 0; i < 2; ++i) a.data_ptr<float>()[i] = v[k][i]; return a; }; }
    // contents are those of the k-th evaluation
    void is(const ndarray &a, int k) { vf_check(a.ndim() == 1 && a.numel() == 2, "shape of the evaluated array"); for (int i = 0; i < 2; ++i) vf_check(get<float>(a, i) == v[k][i], "contents of the evaluated array"); }
};
// every history of copies, assignments, moves to the same device and conversions of two handles that share one source
static void history(policy p) {
    World w; ndarray_deferred a(w.source(), p), b = a;
    int expected = p == policy::eager ? 1 : 0; vf_check(w.runs == expected, "evaluations at creation");
    for (int i = 0; i < LEN; ++i) {
        auto &x = vf_pick("handle", 0, 1) ? b : a; auto &y = &x == &a ? b : a;
        switch (vf_pick("op", 0, 3)) {
        case 0: { ndarray r = x; int which;
            if (p == policy::lazy) which = expected++; else { if (expected == 0) expected = 1; which = 0; }
            vf_check(w.runs == expected, "number of evaluations"); w.is(r, which); } break;
        case 1: y = x; break;
        case 2: { ndarray_deferred c(x); x = c; } break;
        case 3: { ndarray_deferred c = x.to(CPU()); y = c; } break;
        }
        vf_check(w.runs == expected, "evaluations only on conversion");
    }
    vf_cover("end");
}
ENTRY e_lazy() { history(policy::lazy); }
ENTRY e_memoize() { history(policy::memoize); }
ENTRY e_eager() { history(policy::eager); }
ENTRY e_default_policy() { // a source without a policy is lazy
    World w; ndarray_deferred a(w.source()); vf_check(w.runs == 0, "evaluations at creation");
    for (int i = 0; i < 3; ++i) { ndarray r = a; vf_check(w.runs == i + 1, "number of evaluations"); w.is(r, i); }
    vf_cover("end");
}
ENTRY e_wrapped() { // a wrapped array is handed out as it is: every conversion shares its memory and layout
    int64_t layout = vf_pick("layout", 0, NLAYOUTS - 1); auto s = make<float>("a", {2, 3}, layout);
    if (!view_ok(s)) return;
    ndarray_deferred d(s.v), e = d; int64_t how = vf_pick("how", 0, 3);
    if (how == 1) e = d.to(CPU()); else if (how == 2) e = d.to("cpu"); else if (how == 3) { ndarray first = d; (void)first; ndarray_deferred c(d); e = c; }
    ndarray r = e, q = d;
    vf_check(same(r.shape(), s.shape) && r.data_ptr<float>() == s.v.data_ptr<float>() && r.dtype() == dt<float>(), "wrapped array handed out");
    vf_check(r.strides() == s.v.strides() && r.offsets() == s.v.offsets(), "wrapped array keeps its layout");
    for (int64_t i = 0; i < s.n(); ++i) { vf_check(get<float>(r, i) == s.at(i), "wrapped contents"); vf_check(get<float>(q, i) == s.at(i), "wrapped contents"); }
    s.unchanged("wrapped array unchanged");
    float x = vf_realf("x", -100, 100); r.data_ptr<float>()[pos(r, {1, 1})] = x; vf_check(get<float>(q, 4) == x, "conversions share memory");
    vf_cover("end");
}
ENTRY e_memoized_shares() { // every handle of a memoized evaluation gives the same array
    World w; ndarray_deferred a(w.source(), vf_pick("eager", 0, 1) ? policy::eager : policy::memoize), b = a; ndarray r = a, q = b;
    vf_check(w.runs == 1, "number of evaluations"); vf_check(r.data_ptr<float>() == q.data_ptr<float>(), "memoized array shared"); w.is(r, 0); w.is(q, 0);
    vf_cover("end");
}
ENTRY e_source_fails() { // an evaluation that throws is not remembered: the next use evaluates again
    World w; w.throw_at = 0; bool lazy = vf_pick("lazy", 0, 1); ndarray_deferred a(w.source(), lazy ? policy::lazy : policy::memoize), b = a;
    vf_check(throws([&] { ndarray r = a; (void)r; }), "failure of the source reported"); vf_check(w.runs == 1, "number of evaluations");
    ndarray r = vf_pick("same", 0, 1) ? a : b; vf_check(w.runs == 2, "number of evaluations"); w.is(r, 1);
    ndarray q = b; vf_check(w.runs == (lazy ? 3 : 2), "number of evaluations"); w.is(q, lazy ? 2 : 1);
    vf_cover("end");
}
ENTRY e_passed_to_operations() { // an operation that takes arrays accepts a deferred one
    World w; bool memo = vf_pick("memoize", 0, 1); ndarray_deferred a(w.source(), memo ? policy::memoize : policy::lazy);
    ndarray s = bland::add((ndarray)a, (ndarray)a); vf_check(w.runs == (memo ? 1 : 2), "number of evaluations");
    vf_cover("end");
}
