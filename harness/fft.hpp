// FFTW as its documentation has it: the transform of real samples, either unknown (fresh values) or computed.
#pragma once
#include <fftw3.h>
#include <cmath>
#include <cstdlib>
#include <vector>
namespace fft {
static bool exact = false;
static int only = -1; // when given, the one unknown frequency: the others have fixed values
static int done = 0, plans = 0, blocks = 0;
static std::vector<float> seen;     // samples of the last transform
static std::vector<float> re, im;   // its result, frequencies 0..n/2
FRESH(exact); FRESH(only); FRESH(done); FRESH(plans); FRESH(blocks); FRESH(seen); FRESH(re); FRESH(im);
static void transform(const float *x, int n) {
    ++done; seen.assign(x, x + n); re.clear(); im.clear();
    for (int k = 0; k <= n / 2; ++k) {
        bool isreal = k == 0 || 2 * k == n;
        if (exact) {
            double a = 0, b = 0;
            for (int i = 0; i < n; ++i) { double w = 2 * M_PI * ((int64_t)k * i % n) / n, c = std::round(std::cos(w) * 1e12) / 1e12, s = std::round(std::sin(w) * 1e12) / 1e12; a += c * x[i]; b -= s * x[i]; }
            re.push_back(a); im.push_back(isreal ? 0 : b);
        } else if (only >= 0 && k != only) { re.push_back(2 + (k * 5 % 7)); im.push_back(isreal ? 0 : 1 + (k * 3 % 5)); }
        else { re.push_back(vf_realf("re", -100, 100)); im.push_back(isreal ? 0 : vf_realf("im", -100, 100)); }
    }
}
}
struct fftwf_plan_s { int n; const float *in; fftwf_complex *cin, *out; bool inverse; };
extern "C" {
void *fftwf_malloc(size_t n) { ++fft::blocks; return malloc(n); }
float *fftwf_alloc_real(size_t n) { return (float *)fftwf_malloc(n * sizeof(float)); }
fftwf_complex *fftwf_alloc_complex(size_t n) { return (fftwf_complex *)fftwf_malloc(n * sizeof(fftwf_complex)); }
void fftwf_free(void *p) { if (p) --fft::blocks; free(p); }
fftwf_plan fftwf_plan_dft_r2c_1d(int n, float *in, fftwf_complex *out, unsigned flags) {
    vf_check(n > 0, "a transform has a length");
    if (!(flags & FFTW_ESTIMATE)) for (int i = 0; i < n; ++i) in[i] = 0; // other planners overwrite their input
    ++fft::plans; return new fftwf_plan_s{n, in, nullptr, out, false};
}
fftwf_plan fftwf_plan_dft_r2c(int rank, const int *n, float *in, fftwf_complex *out, unsigned flags) { vf_check(rank == 1, "one axis"); return fftwf_plan_dft_r2c_1d(n[0], in, out, flags); }
fftwf_plan fftwf_plan_dft_1d(int n, fftwf_complex *in, fftwf_complex *out, int sign, unsigned flags) {
    vf_check(n > 0 && sign == FFTW_FORWARD, "a forward transform has a length");
    if (!(flags & FFTW_ESTIMATE)) for (int i = 0; i < n; ++i) in[i][0] = in[i][1] = 0;
    ++fft::plans; return new fftwf_plan_s{n, nullptr, in, out, false};
}
void fftwf_execute(const fftwf_plan p) {
    int n = p->n;
    if (p->in) fft::transform(p->in, n);
    else { std::vector<float> x(n); for (int i = 0; i < n; ++i) { x[i] = p->cin[i][0]; vf_check(p->cin[i][1] == 0, "real samples"); } fft::transform(x.data(), n); }
    for (int k = 0; k < (p->in ? n / 2 + 1 : n); ++k) { bool up = k <= n / 2; int j = up ? k : n - k; p->out[k][0] = fft::re[j]; p->out[k][1] = up ? fft::im[j] : -fft::im[j]; }
}
void fftwf_execute_dft_r2c(const fftwf_plan p, float *in, fftwf_complex *out) { fftwf_plan_s q = *p; q.in = in; q.out = out; fftwf_execute(&q); }
void fftwf_destroy_plan(fftwf_plan p) { --fft::plans; delete p; }
void fftwf_cleanup(void) {}
}
