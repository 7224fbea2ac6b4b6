// A14: the shifted power spectrum holds every frequency once, in order, zero in the middle.
// The Fourier transform itself is the library's: here any transform whose output is that of real samples.
#include "arr.hpp"
#include "fft.hpp"
template <class L> static void spectrum(int64_t n, L layout) {
    auto a = make<float>("x", {n}, layout); vf_assume(view_ok(a));
    ndarray r = bland::fft_shift_mag_square(a.v);
    bool shape = same(r.shape(), {n}) && r.dtype() == dt<float>(); vf_check(shape, "as many frequencies as samples"); if (!shape) return;
    vf_check(fft::done == 1 && (int64_t)fft::seen.size() == n, "one transform of every sample");
    for (int64_t i = 0; i < n; ++i) vf_check(fft::seen[i] == a.at(i), "of the samples of the array in order");
    for (int64_t i = 0; i < n; ++i) { int64_t f = i - n / 2; int64_t k = f < 0 ? -f : f; vf_close(get<float>(r, i), fft::re[k] * fft::re[k] + fft::im[k] * fft::im[k], 0, "power at the frequency"); }
    a.unchanged("samples unmodified"); vf_check(fft::plans == 0 && fft::blocks == 0, "plans and buffers are given back");
    vf_cover("end");
}
ENTRY e_short() { spectrum(vf_pick("n", 1, 9 + 8 * THOROUGH), DENSE); }
ENTRY e_views() { spectrum(vf_pick("n", 3, 6), vf_pick("layout", OFFSET, NLAYOUTS - 1)); }
ENTRY e_long() { SPARSE = 16; spectrum(vf_pick("n", 64, 65), DENSE); }
// the whole of it, with the transform of four samples written out
ENTRY e_exact() {
    fft::exact = true; auto a = make<float>("x", {4}, vf_pick("layout", 0, NLAYOUTS - 1)); vf_assume(view_ok(a)); ndarray r = bland::fft_shift_mag_square(a.v);
    double x[4]; for (int i = 0; i < 4; ++i) x[i] = a.at(i);
    double dc = x[0] + x[1] + x[2] + x[3], ny = x[0] - x[1] + x[2] - x[3], re = x[0] - x[2], im = x[1] - x[3];
    vf_close(get<float>(r, 0), ny * ny, 1e-6, "highest frequency"); vf_close(get<float>(r, 1), re * re + im * im, 1e-6, "negative frequency"); vf_close(get<float>(r, 2), dc * dc, 1e-6, "zero frequency"); vf_close(get<float>(r, 3), re * re + im * im, 1e-6, "positive frequency");
    vf_cover("end");
}
template <class T> static void refused() { auto a = make<T>("x", {4}, DENSE); vf_check(throws([&] { bland::fft_shift_mag_square(a.v); }), "other types are refused"); a.unchanged("and left alone"); vf_cover("end"); }
ENTRY e_types() { switch (vf_pick("type", 0, 2)) { case 0: refused<uint8_t>(); break; case 1: refused<int32_t>(); break; default: refused<uint32_t>(); } }
ENTRY e_longer() { SPARSE = 16384; int64_t n = vf_pick("n", 0, 3); static const int64_t N[] = {600, 601, 140000, 140001}; n = N[n]; fft::only = n / 3; spectrum(n, DENSE); } // one arbitrary frequency of many
