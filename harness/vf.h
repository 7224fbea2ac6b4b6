// Interface between harnesses and the symbolic executor (engine/calls.inc) or the native replay runtime (vf_native.cpp).
#pragma once
#include <cstdint>
extern "C" {
double  vf_real(const char *name, double lo, double hi);   // any real in [lo,hi]
float   vf_realf(const char *name, double lo, double hi);
double  vf_fp64(const char *name);                         // any IEEE double (entries run with --fp)
float   vf_fp32(const char *name);
int64_t vf_int(const char *name, int64_t lo, int64_t hi);  // any integer in [lo,hi], kept symbolic
uint8_t vf_u8(const char *name);
uint32_t vf_u32(const char *name);
int64_t vf_pick(const char *name, int64_t lo, int64_t hi); // any integer in [lo,hi], one path per value
void vf_assume(bool c);
void vf_check(bool c, const char *label);
void vf_close(double a, double b, double tol, const char *label); // |a-b| <= tol
void vf_observe(const char *name, double v);
void vf_cover(const char *name);                           // must be reached by some path
void vf_fail(const char *label);
int64_t vf_live_heap();
}
#ifndef VF_NATIVE
// Each entry is first run on fixed values: what the harness itself keeps between runs is given back its first value by FRESH(variable);
struct vf_kept { vf_kept *next; virtual void restore() = 0; };
inline vf_kept *vf_all_kept = nullptr;
template <class T> struct vf_keep : vf_kept { T &v; T s; vf_keep(T &x) : v(x), s(x) { next = vf_all_kept; vf_all_kept = this; } void restore() override { v = s; } };
template <class T, int n> struct vf_keep<T[n]> : vf_kept { T (&v)[n]; T s[n]; vf_keep(T (&x)[n]) : v(x) { for (int i = 0; i < n; ++i) s[i] = x[i]; next = vf_all_kept; vf_all_kept = this; } void restore() override { for (int i = 0; i < n; ++i) v[i] = s[i]; } };
#define FRESH(v) static vf_keep<decltype(v)> fresh_##v(v)
#define FRESH_IN(n, v) static vf_keep<decltype(n::v)> fresh_##n##_##v(n::v)
extern "C" __attribute__((used)) inline void vf_restore() { for (auto k = vf_all_kept; k; k = k->next) k->restore(); }
#endif
#define ENTRY extern "C" __attribute__((used, noinline)) void
#ifndef THOROUGH
#define THOROUGH 0
#endif
