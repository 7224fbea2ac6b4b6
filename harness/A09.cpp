// A09: lengths and values of created arrays.
#include "arr.hpp"
#include <bland/ops/creators.hpp>
static const Shape &shape_of(int64_t i) { static const Shape S[] = {{3}, {2, 2}, {1, 2, 3}, {1}, {0}, {2, 0}}; return S[i]; }
template <class T> static double near(double x) { return x; }
// array filled with one value, converted to the element type
template <class T, class V> static void filled(V v, double lo, double hi) {
    Shape sh = shape_of(vf_pick("shape", 0, 5)); int how = vf_pick("how", 0, 1);
    vf_assume(v >= lo && v <= hi);
    ndarray a(sh, v, dt<T>(), CPU());
    if (how) { a = ndarray(sh, dt<T>(), CPU()); bland::fill(a, v); }
    vf_check(same(a.shape(), sh) && a.dtype() == dt<T>(), "requested shape and element type"); vf_check(a.numel() == count(sh), "requested number of elements");
    for (int64_t i = 0; i < count(sh); ++i) { if constexpr (std::is_floating_point<T>::value) vf_close(get<T>(a, i), (double)v, 1e-4, "filled value"); else vf_check(get<T>(a, i) == (T)v, "filled value"); }
    vf_cover("end");
}
ENTRY e_fill_f32() { filled<float>(vf_realf("v", -100, 100), -100, 100); }
ENTRY e_fill_f32_i32() { filled<float>((int32_t)vf_int("v", -100, 100), -100, 100); }
ENTRY e_fill_f32_u8() { filled<float>(vf_u8("v"), 0, 255); }
ENTRY e_fill_i32() { filled<int32_t>((int32_t)vf_u32("v"), -2147483648., 2147483647.); }
ENTRY e_fill_u8() { filled<uint8_t>(vf_u8("v"), 0, 255); }
ENTRY e_fill_u8_i32() { filled<uint8_t>((int32_t)vf_int("v", 0, 255), 0, 255); }
ENTRY e_fill_u32() { filled<uint32_t>(vf_u32("v"), 0, 4294967295.); }
ENTRY e_zeros_ones() {
    Shape sh = shape_of(vf_pick("shape", 0, 5)); int one = vf_pick("one", 0, 1), ty = vf_pick("type", 0, 3);
    auto d = ty == 0 ? dt<float>() : ty == 1 ? dt<uint8_t>() : ty == 2 ? dt<int32_t>() : dt<uint32_t>();
    ndarray a = one ? bland::ones(sh, d, CPU()) : bland::zeros(sh, d, CPU());
    vf_check(same(a.shape(), sh) && a.dtype() == d, "requested shape and element type");
    for (int64_t i = 0; i < count(sh); ++i) {
        double v = ty == 0 ? get<float>(a, i) : ty == 1 ? get<uint8_t>(a, i) : ty == 2 ? get<int32_t>(a, i) : get<uint32_t>(a, i);
        vf_check(v == one, "filled value");
    }
    vf_cover("end");
}
// a range: as long as the half-open interval allows (the last partial step may be left out) and start + i*step throughout
template <class T, class O> static void range(T start, double slo, double shi) {
    int64_t len = vf_pick("len", 0, THOROUGH ? 9 : 6), step = vf_pick("step", 1, 3), ds = vf_pick("typed", 0, 1), dir = std::is_signed<T>::value || std::is_floating_point<T>::value ? 1 - 2 * vf_pick("down", 0, 1) : 1;
    vf_assume(start >= slo && start <= shi);
    T end = (T)(start + (T)(dir * len)), st = (T)(dir * step);
    ndarray a = bland::arange(start, end, st, dt<O>(), CPU());
    int64_t n = a.numel();
    vf_check(a.ndim() == 1 && a.shape()[0] == n, "one axis");
    vf_check(n >= len / step && n <= (len + step - 1) / step, "length of the range");
    vf_check(a.dtype() == dt<O>(), "requested element type");
    for (int64_t i = 0; i < n; ++i) { if constexpr (std::is_floating_point<O>::value) vf_close(get<O>(a, i), (double)start + dir * step * i, 1e-3, "element of the range"); else vf_check(get<O>(a, i) == (O)(start + dir * step * i), "element of the range"); }
    (void)ds; vf_cover("end");
}
ENTRY e_arange_i32() { range<int32_t, int32_t>((int32_t)vf_int("start", -1000, 1000), -1000, 1000); }
ENTRY e_arange_i32_f32() { range<int32_t, float>((int32_t)vf_int("start", -1000, 1000), -1000, 1000); }
ENTRY e_arange_u8() { range<uint8_t, uint8_t>(vf_u8("start"), 0, 240); }
ENTRY e_arange_u32() { range<uint32_t, uint32_t>(vf_u32("start"), 0, 4000000000.); }
ENTRY e_arange_i64() { range<int64_t, int64_t>(vf_int("start", -1000000, 1000000), -1000000, 1000000); }
ENTRY e_arange_f32() { range<float, float>(vf_realf("start", -100, 100), -100, 100); }
ENTRY e_arange_default() { // element type inferred from the arguments
    int32_t s = (int32_t)vf_int("start", -100, 100); int64_t n = vf_pick("n", 0, 5);
    ndarray a = bland::arange(s, (int32_t)(s + n), (int32_t)1, CPU());
    vf_check(a.dtype() == dt<int32_t>() && a.numel() == n, "inferred type and length"); for (int64_t i = 0; i < n; ++i) vf_check(get<int32_t>(a, i) == s + i, "element of the range"); vf_cover("end");
}
ENTRY e_arange_frac() { // fractional steps
    float s = vf_realf("start", -10, 10); int64_t n = vf_pick("n", 0, 6), q = vf_pick("quarter", 1, 6); float st = q * 0.25f;
    ndarray a = bland::arange(s, s + n * st, st, dt<float>(), CPU());
    vf_check(a.numel() == n, "length of the range"); for (int64_t i = 0; i < n; ++i) vf_close(get<float>(a, i), s + i * st, 1e-3, "element of the range"); vf_cover("end");
}
ENTRY e_arange_anylen() { // any real interval: long enough, and never past its end
    float len = vf_realf("len", 0, 6), s = vf_realf("start", -10, 10); int64_t q = vf_pick("quarter", 1, 4); float st = q * 0.5f;
    ndarray a = bland::arange(s, s + len, st, dt<float>(), CPU()); int64_t n = a.numel();
    vf_check((n + 1) * st > len && (n - 1) * st < len, "length of the range"); for (int64_t i = 0; i < n; ++i) vf_close(get<float>(a, i), s + i * st, 1e-3, "element of the range"); vf_cover("end");
}
// a linear space: n elements evenly stepped from start, the step being an n-th of the interval
template <class T, class O> static void linear(T start, double slo, double shi) {
    int64_t n = vf_pick("n", 0, THOROUGH ? 9 : 6), step = vf_pick("step", std::is_signed<T>::value || std::is_floating_point<T>::value ? -3 : 0, 3);
    vf_assume(start >= slo && start <= shi);
    T end = (T)(start + step * n);
    ndarray a = bland::linspace(start, end, (size_t)n, dt<O>(), CPU());
    vf_check(a.ndim() == 1 && a.shape()[0] == n && a.dtype() == dt<O>(), "requested number of elements and type");
    for (int64_t i = 0; i < n; ++i) { if constexpr (std::is_floating_point<O>::value) vf_close(get<O>(a, i), (double)start + step * i, 1e-3, "element of the space"); else vf_check(get<O>(a, i) == (O)(start + step * i), "element of the space"); }
    vf_cover("end");
}
ENTRY e_linspace_f32() { linear<float, float>(vf_realf("start", -100, 100), -100, 100); }
// 32 starts at one of three places (whole ranges of starts make the solver reason about 64-bit divisions of sums)
static int32_t few(const char *name) { int32_t base[] = {-16, -1000, 900}; return base[vf_pick("base", 0, 2)] + (int32_t)(vf_u8(name) & 31); }
ENTRY e_linspace_i32() { linear<int32_t, int32_t>(few("start"), -1000, 1000); }
ENTRY e_linspace_i32_f32() { linear<int32_t, float>(few("start"), -1000, 1000); }
ENTRY e_linspace_u8() { linear<uint8_t, uint8_t>((uint8_t)(vf_u8("start") & 31) + 100 * vf_pick("base", 0, 1), 0, 220); }
ENTRY e_linspace_u32() { linear<uint32_t, uint32_t>((vf_u32("start") & 31) + 2000000000u * (uint32_t)vf_pick("base", 0, 2), 0, 4100000000.); }
ENTRY e_linspace_any() { // any real end: the first element is start and the spacing is constant
    float s = vf_realf("start", -10, 10), e = vf_realf("end", -10, 10); int64_t n = vf_pick("n", 1, 8);
    ndarray a = bland::linspace(s, e, (size_t)n, dt<float>(), CPU());
    vf_check(a.numel() == n, "requested number of elements"); vf_close(get<float>(a, 0), s, 1e-3, "first element");
    for (int64_t i = 1; i < n; ++i) { vf_close(n * (get<float>(a, i) - get<float>(a, i - 1)), e - s, 1e-2, "spacing"); }
    vf_cover("end");
}
ENTRY e_long() { // more elements than 8-, 15- or 16-bit indices count
    int k = vf_pick("creator", 0, 2); float v = vf_realf("v", -100, 100); Shape sh = vf_pick("axes", 0, 1) ? Shape{300, 260} : Shape{70000}; int64_t n = count(sh);
    ndarray a = k == 0 ? ndarray(sh, v, dt<float>(), CPU()) : k == 1 ? bland::zeros(sh, dt<float>(), CPU()) : ndarray(sh, dt<float>(), CPU()); if (k == 2) bland::fill(a, v); bool ok = same(a.shape(), sh) && a.numel() == n; vf_check(ok, "requested shape"); if (!ok) return;
    for (int64_t i = 0; i < n; ++i) vf_check(a.data_ptr<float>()[i] == (k == 1 ? 0 : v), "filled value"); vf_cover("end");
}
template <class T> static void whole_range(int64_t lo, int64_t n, bool even) { // from the lowest value of a narrow type to its highest, or 70000 values
    ndarray a = even ? bland::linspace((int32_t)lo, (int32_t)(lo + n), (size_t)n, dt<T>(), CPU()) : bland::arange((int32_t)lo, (int32_t)(lo + n), (int32_t)1, dt<T>(), CPU()); bool ok = same(a.shape(), {n}) && a.numel() == n && a.dtype() == dt<T>(); vf_check(ok, "requested shape and type"); if (!ok) return;
    for (int64_t i = 0; i < n; ++i) { T x = a.data_ptr<T>()[i]; vf_check(x == (T)(lo + i), "element of the range"); } vf_cover("end");
}
ENTRY e_long_range() { // every type of element
    bool even = vf_pick("even", 0, 1); switch (vf_pick("type", 0, 9)) { case 0: whole_range<float>(-5, 70000, even); break; case 1: whole_range<double>(-5, 70000, even); break; case 2: whole_range<int8_t>(-128, 256, even); break; case 3: whole_range<int16_t>(-32768, 65536, even); break;
    case 4: whole_range<int32_t>(-5, 70000, even); break; case 5: whole_range<int64_t>(-5, 70000, even); break; case 6: whole_range<uint8_t>(0, 256, even); break; case 7: whole_range<uint16_t>(0, 65536, even); break; case 8: whole_range<uint32_t>(5, 70000, even); break; default: whole_range<uint64_t>(5, 70000, even); }
}
