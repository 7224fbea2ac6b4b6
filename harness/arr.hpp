// Array views with symbolic elements for the array properties, and index-based access that does not use the code under test.
#pragma once
#include "vf.h"
#include <bland/bland.hpp>
#include <bland/ndarray.hpp>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/ops.hpp>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
using bland::ndarray;
using bland::ndarray_slice;
using bland::slice_spec;
using Shape = std::vector<int64_t>;
static inline ndarray::dev CPU() { return ndarray::dev::cpu; }
template <class T> static ndarray::datatype dt() {
    DLDataType d; d.lanes = 1; d.bits = sizeof(T) * 8;
    d.code = std::is_floating_point<T>::value ? kDLFloat : (std::is_signed<T>::value ? kDLInt : kDLUInt);
    return ndarray::datatype(d);
}
template <class T> static T fresh(const char *n, double lo = -100, double hi = 100) {
    if constexpr (std::is_floating_point<T>::value) return vf_realf(n, lo, hi);
    else if constexpr (sizeof(T) == 1) return (T)vf_u8(n);
    else if constexpr (sizeof(T) == 8) return (T)vf_int(n, -(1LL << 62), 1LL << 62);
    else return (T)vf_u32(n);
}
static inline int64_t count(const Shape &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// row-major position n of shape s, as coordinates
static inline Shape coords(int64_t n, const Shape &s) { Shape c(s.size()); for (int i = (int)s.size() - 1; i >= 0; --i) { c[i] = n % s[i]; n /= s[i]; } return c; }
static inline int64_t rowmajor(const Shape &c, const Shape &s) { int64_t n = 0; for (size_t i = 0; i < s.size(); ++i) n = n * s[i] + c[i]; return n; }
// memory position of coordinates c in array a
static inline int64_t pos(const ndarray &a, const Shape &c) { auto st = a.strides(), of = a.offsets(); int64_t p = 0; for (size_t i = 0; i < c.size(); ++i) p += of[i] + c[i] * st[i]; return p; }
template <class T> static T get(const ndarray &a, int64_t n) { return a.data_ptr<T>()[pos(a, coords(n, a.shape()))]; }
static inline bool same(const Shape &a, const Shape &b) { return a == b; }

// larger arrays: only every SPARSE-th element is symbolic, the others are distinct small values
static int SPARSE = 0; FRESH(SPARSE);
// how a view is cut out of its parent: per axis {elements before, step, elements after}
enum { DENSE = 0, OFFSET = 1, STRIDED = 2, NESTED = 3, ROWS = 4, COLS = 5, HEAD = 6, MIDDLE = 7, FAR = 8, NLAYOUTS = 9 };
template <class T> struct Arr {
    ndarray parent, v;
    Shape shape, pshape;
    std::vector<T> init;        // every element of the parent
    std::vector<int64_t> where; // view element (row-major) -> parent element
    int layout;
    std::vector<int64_t> filled; // FAR: the only elements of the parent that were given values, those of the view and their neighbours
    T at(int64_t n) const { return init[where[n]]; }
    T at(const Shape &c) const { return at(rowmajor(c, shape)); }
    int64_t n() const { return (int64_t)where.size(); }
    void unchanged(const char *label) const { auto p = parent.data_ptr<T>(); if (layout == FAR) { for (auto i : filled) vf_check(p[i] == init[i], label); return; } for (size_t i = 0; i < init.size(); ++i) vf_check(p[i] == init[i], label); }
    bool selected(int64_t p) const { for (auto w : where) if (w == p) return true; return false; }
    // everything outside the view
    void outside_unchanged(const char *label) const { auto p = parent.data_ptr<T>(); if (layout == FAR) { for (auto i : filled) if (!selected(i)) vf_check(p[i] == init[i], label); return; } for (size_t i = 0; i < init.size(); ++i) if (!selected(i)) vf_check(p[i] == init[i], label); }
};
template <class T> static Arr<T> make(const char *name, const Shape &shape, int layout, double lo = -100, double hi = 100, int64_t apart = 300) {
    Arr<T> r{ndarray({1}, dt<T>(), CPU()), ndarray({1}, dt<T>(), CPU()), shape, {}, {}, {}, layout, {}};
    std::vector<int64_t> off(shape.size()), st(shape.size());
    for (size_t i = 0; i < shape.size(); ++i) {
        bool last = i + 1 == shape.size(), first = i == 0;
        int64_t o = 0, s = 1, tail = 0;
        switch (layout) {
        case OFFSET: o = 1 + i; tail = 1; break;
        case STRIDED: o = 1; s = 2; tail = 1; break;
        case NESTED: o = first ? 2 : 3; s = last ? 2 : 1; tail = 0; break;
        case ROWS: if (first) { o = 2; tail = 1; } break;
        case COLS: if (last) { o = 1; s = 3; tail = 1; } break;
        case HEAD: tail = 1; break; // begins where its parent does
        case MIDDLE: if (shape.size() < 3 ? first : !first && !last) { s = shape.size() < 3 ? 2 : 1; tail = 1; } break; // only the axes in the middle are cut, or every other row of a matrix
        case FAR: if (last) o = s = apart; else o = 1; break; // offsets and strides beyond 8 (or 16) bits
        }
        off[i] = o; st[i] = s; r.pshape.push_back(o + shape[i] * s + tail);
    }
    r.parent = ndarray(r.pshape, dt<T>(), CPU());
    auto p = r.parent.template data_ptr<T>();
    int64_t n = count(r.pshape);
    auto value = [&](int64_t i) { return !SPARSE || i % SPARSE == SPARSE / 2 ? fresh<T>(name, lo, hi) : std::is_floating_point<T>::value ? (T)(lo + (i * 29 + 7) % 97 * (hi - lo) / 128) : (T)((i * 29 + 7) % 97); };
    if (layout != FAR) for (int64_t i = 0; i < n; ++i) { T x = value(i); p[i] = x; r.init.push_back(x); }
    r.v = r.parent;
    if (layout == NESTED) { // a slice of a slice, the offsets adding up
        for (size_t i = 0; i < shape.size(); ++i) r.v = ndarray(bland::slice(r.v, (int64_t)i, (int64_t)1, r.pshape[i], (int64_t)1));
        for (size_t i = 0; i < shape.size(); ++i) r.v = ndarray(bland::slice(r.v, (int64_t)i, off[i] - 1, off[i] - 1 + shape[i] * st[i], st[i]));
    } else if (layout != DENSE)
        for (size_t i = 0; i < shape.size(); ++i)
            if (off[i] || st[i] != 1 || r.pshape[i] != shape[i]) r.v = ndarray(bland::slice(r.v, (int64_t)i, off[i], off[i] + shape[i] * st[i], st[i]));
    int64_t m = count(shape);
    for (int64_t k = 0; k < m; ++k) { auto c = coords(k, shape); for (size_t i = 0; i < c.size(); ++i) c[i] = off[i] + c[i] * st[i]; r.where.push_back(rowmajor(c, r.pshape)); }
    if (layout == FAR) { r.init.assign(n, (T)2); for (auto w : r.where) { p[w] = r.init[w] = value(r.filled.size() / 3); r.filled.push_back(w); for (auto i : {w - 1, w + 1}) if (i >= 0 && i < n) { p[i] = (T)2; r.filled.push_back(i); } } }
    return r;
}
static const int SOME_LAYOUTS[] = {DENSE, MIDDLE, COLS, ROWS}; // those whose parents stay small at five or six axes
// Long arrays: row-major memory positions of all elements of an array (of shape s, when s repeats it along its axes of one), without a search per element.
static inline std::vector<int64_t> places(const Shape &shape, const Shape &stride, int64_t base, const Shape &s) {
    Shape st(s.size(), 0), c(s.size(), 0); size_t d = s.size() - shape.size(); for (size_t i = 0; i < shape.size(); ++i) if (shape[i] != 1) st[i + d] = stride[i];
    std::vector<int64_t> r; int64_t n = count(s), p = base; r.reserve(n);
    for (int64_t k = 0; k < n; ++k) { r.push_back(p); for (size_t i = s.size(); i-- > 0;) { p += st[i]; if (++c[i] < s[i]) break; p -= st[i] * s[i]; c[i] = 0; } }
    return r;
}
static inline std::vector<int64_t> places(const ndarray &a, const Shape &s) { auto of = a.offsets(); int64_t b = 0; for (auto o : of) b += o; return places(a.shape(), a.strides(), b, s); }
template <class T> static std::vector<int64_t> indices(const Arr<T> &a, const Shape &s) { Shape st(a.shape.size(), 1); for (size_t i = st.size(); i-- > 1;) st[i - 1] = st[i] * a.shape[i]; return places(a.shape, st, 0, s); }
// The view denotes the intended elements (so that what follows tests the operation and not the slicing).
template <class T> static bool view_ok(const Arr<T> &a) {
    return same(a.v.shape(), a.shape) && places(a.v, a.shape) == a.where;
}
static inline ndarray_slice cut(const ndarray &a, int64_t dim, int64_t s, int64_t e, int64_t t = 1) { return bland::slice(a, dim, s, e, t); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } catch (...) { return true; } return false; }
