// A11: array handles through histories of copying, assigning, moving, slicing, exporting and importing.
#include "arr.hpp"
#include <utility>
static const int LEN = THOROUGH ? 4 : 3, H = 3;
// what a handle denotes: positions of one of the two buffers
struct Model { int buf = -1; Shape shape; std::vector<int64_t> where; };
static float V[2][6];
static void write(const ndarray &a, const Model &m, int64_t n, float x) { a.data_ptr<float>()[pos(a, coords(n, m.shape))] = x; V[m.buf][m.where[n]] = x; }
static void same_as(const ndarray &a, const Model &m) {
    if (m.buf < 0) return;
    vf_check(same(a.shape(), m.shape) && a.dtype() == dt<float>(), "shape and type kept");
    if (!same(a.shape(), m.shape)) return;
    vf_check(a.numel() == (int64_t)m.where.size() && a.ndim() == (int64_t)m.shape.size(), "number of elements");
    for (size_t i = 0; i < m.where.size(); ++i) vf_check(get<float>(a, i) == V[m.buf][m.where[i]], "handle denotes its elements");
}
static ndarray source(int b) { ndarray a(b ? Shape{4} : Shape{2, 3}, dt<float>(), CPU()); for (int i = 0; i < (b ? 4 : 6); ++i) { V[b][i] = vf_realf("v", -100, 100); a.data_ptr<float>()[i] = V[b][i]; } return a; }
static Model whole(int b) { Model m; m.buf = b; m.shape = b ? Shape{4} : Shape{2, 3}; for (int i = 0; i < (b ? 4 : 6); ++i) m.where.push_back(i); return m; }
// element k of an exported tensor, read as another framework would
static float exported(const DLManagedTensor *t, int64_t n) {
    int64_t p = 0; for (int d = t->dl_tensor.ndim - 1; d >= 0; --d) { p += (n % t->dl_tensor.shape[d]) * t->dl_tensor.strides[d]; n /= t->dl_tensor.shape[d]; }
    return *reinterpret_cast<float *>(static_cast<char *>(t->dl_tensor.data) + t->dl_tensor.byte_offset + p * 4);
}
static void same_export(const DLManagedTensor *t, const Model &m) {
    vf_check(t->dl_tensor.ndim == (int)m.shape.size() && t->dl_tensor.dtype.code == kDLFloat && t->dl_tensor.dtype.bits == 32, "exported rank and type");
    for (size_t i = 0; i < m.shape.size(); ++i) vf_check(t->dl_tensor.shape[i] == m.shape[i], "exported shape");
    for (size_t i = 0; i < m.where.size(); ++i) vf_check(exported(t, i) == V[m.buf][m.where[i]], "export denotes the array's elements");
}
static void history(int first) {
    int64_t live = vf_live_heap();
    {
        std::vector<std::unique_ptr<ndarray>> h(H); std::vector<Model> m(H); std::vector<DLManagedTensor *> ex; std::vector<Model> em;
        h[0].reset(new ndarray(source(0))); m[0] = whole(0); h[1].reset(new ndarray(source(1))); m[1] = whole(1);
        for (int i = 0; i < LEN; ++i) {
            int op = i == 0 ? first : vf_pick("op", 0, 7), x = vf_pick("from", 0, H - 1);
            if (!h[x]) { if (op == 0) continue; vf_assume(false); }
            int y = op == 6 || op == 5 ? x : (x + 1 + vf_pick("to", 0, 1)) % H; // the other handle
            switch (op) {
            case 0: h[y].reset(new ndarray(*h[x])); m[y] = m[x]; break;
            case 1: if (!h[y]) h[y].reset(new ndarray(ndarray({1}, dt<float>(), CPU()))); *h[y] = *h[x]; m[y] = m[x]; break;
            case 2: { ndarray t(std::move(*h[x])); h[x].reset(); h[y].reset(new ndarray(std::move(t))); Model k = m[x]; m[x] = Model(); m[y] = k; } break;
            case 3: { // a slice of the last axis
                auto &s = m[x]; int64_t d = (int64_t)s.shape.size() - 1; if (s.shape[d] < 2) vf_assume(false);
                h[y].reset(new ndarray(cut(*h[x], d, 1, s.shape[d], 1))); Model k = s; k.shape[d] -= 1; k.where.clear(); int64_t n = count(k.shape);
                for (int64_t q = 0; q < n; ++q) { auto c = coords(q, k.shape); c[d] += 1; k.where.push_back(s.where[rowmajor(c, s.shape)]); }
                m[y] = k; } break;
            case 4: { // export and import again: the import borrows, so the export is kept
                DLManagedTensor *t = h[x]->get_managed_tensor(); Model k = m[x]; ex.push_back(t); em.push_back(k); same_export(t, k); h[y].reset(new ndarray(ndarray(*t))); m[y] = k; } break;
            case 5: { bool keep = vf_pick("own", 0, 1); DLManagedTensor *t = h[x]->get_managed_tensor(); same_export(t, m[x]); // export that outlives the handle
                if (keep) { ex.push_back(t); em.push_back(m[x]); h[x].reset(); m[x] = Model(); } else t->deleter(t); } break;
            case 6: h[x].reset(); m[x] = Model(); break;
            case 7: write(*h[x], m[x], (int64_t)m[x].where.size() - 1, vf_realf("w", -100, 100)); break;
            }
            for (int q = 0; q < H; ++q) if (h[q]) same_as(*h[q], m[q]);
            for (size_t q = 0; q < ex.size(); ++q) same_export(ex[q], em[q]);
        }
        for (auto &q : h) q.reset();
        for (size_t q = 0; q < ex.size(); ++q) same_export(ex[q], em[q]);
        for (auto t : ex) t->deleter(t);
    }
    vf_check(vf_live_heap() == live, "all memory released");
    vf_cover("end");
}
ENTRY e_copy_first() { history(0); }
ENTRY e_assign_first() { history(1); }
ENTRY e_move_first() { history(2); }
ENTRY e_slice_first() { history(3); }
ENTRY e_import_first() { history(4); }
ENTRY e_export_first() { history(5); }
ENTRY e_release_first() { history(6); }
// tensors of another framework: any strides, compact tensors without strides, a byte offset, and metadata that goes away after the import
ENTRY e_foreign() {
    int form = vf_pick("form", 0, 3), off = vf_pick("offset", 0, 2); bool assign = vf_pick("assign", 0, 1);
    float buf[24]; for (auto &x : buf) x = vf_realf("v", -100, 100);
    Shape sh = form == 3 ? Shape{2, 2, 2} : Shape{2, 3}, st = form == 1 ? Shape{6, 2} : form == 2 ? Shape{1, 2} : form == 3 ? Shape{4, 2, 1} : Shape{3, 1};
    ndarray a({1}, dt<float>(), CPU());
    {
        std::unique_ptr<int64_t[]> s(new int64_t[sh.size()]), t(new int64_t[sh.size()]);
        for (size_t i = 0; i < sh.size(); ++i) { s[i] = sh[i]; t[i] = st[i]; }
        DLManagedTensor x; x.manager_ctx = nullptr; x.deleter = nullptr;
        x.dl_tensor.data = buf; x.dl_tensor.device = ndarray::dev::cpu; x.dl_tensor.ndim = sh.size(); x.dl_tensor.dtype = ndarray::datatype::float32;
        x.dl_tensor.shape = s.get(); x.dl_tensor.strides = form == 0 || form == 3 ? nullptr : t.get(); x.dl_tensor.byte_offset = off * 4;
        if (assign) { ndarray y(x); a = y; } else { std::unique_ptr<ndarray> y(new ndarray(x)); ndarray z(*y); y.reset(); a = ndarray(z); }
        s[0] = 77; t[0] = 99;
    }
    vf_check(same(a.shape(), sh), "imported shape"); if (!same(a.shape(), sh)) return;
    for (int64_t i = 0; i < count(sh); ++i) { auto c = coords(i, sh); int64_t p = off; for (size_t d = 0; d < c.size(); ++d) p += c[d] * st[d]; vf_check(get<float>(a, i) == buf[p], "imported elements"); vf_check(a.scalarize<float>(c) == buf[p], "imported elements"); }
    ndarray b = bland::copy(a); for (int64_t i = 0; i < count(sh); ++i) vf_check(get<float>(b, i) == get<float>(a, i), "imported array used in operations");
    ndarray v = cut(a, 1, 1, sh[1]); DLManagedTensor *e = v.get_managed_tensor(); for (int64_t i = 0; i < v.numel(); ++i) vf_check(exported(e, i) == get<float>(v, i), "export of a slice of an import"); e->deleter(e);
    vf_cover("end");
}
// an array's size may exceed 2^31 elements
ENTRY e_large() {
    int64_t d0 = vf_int("d0", 0, 1ll << 30), d1 = vf_int("d1", 0, 1ll << 30); float x;
    int64_t s[2] = {d0, d1};
    DLManagedTensor t; t.manager_ctx = nullptr; t.deleter = nullptr; t.dl_tensor.data = &x; t.dl_tensor.device = ndarray::dev::cpu; t.dl_tensor.ndim = 2; t.dl_tensor.dtype = ndarray::datatype::float32; t.dl_tensor.shape = s; t.dl_tensor.strides = nullptr; t.dl_tensor.byte_offset = 0;
    ndarray a(t); vf_check(a.size(0) == d0 && a.size(1) == d1, "sizes"); vf_check(a.numel() == d0 * d1, "number of elements"); vf_check(a.strides() == (Shape{d1, 1}), "strides of a compact tensor");
    vf_cover("end");
}
ENTRY e_scalarize() { // the only element of any view, and nothing else
    int layout = vf_pick("layout", 0, NLAYOUTS - 1), which = vf_pick("shape", 0, 3); static const Shape S[] = {{1}, {1, 1}, {2}, {0}};
    auto a = make<float>("a", S[which], layout); if (!view_ok(a)) return;
    if (which < 2) vf_check(a.v.scalarize<float>() == a.at(0), "scalar of a view"); else vf_check(throws([&] { a.v.scalarize<float>(); }), "only one element makes a scalar");
    auto b = make<int32_t>("b", {2, 2}, layout); if (!view_ok(b)) return;
    for (int64_t i = 0; i < 4; ++i) vf_check(b.v.scalarize<int32_t>(coords(i, b.shape)) == b.at(i), "element of a view");
    vf_check(throws([&] { b.v.scalarize<int32_t>(Shape{1}); }), "an index per axis"); vf_check(throws([&] { b.v.size(2); }), "size of an axis outside the rank");
    vf_cover("end");
}
