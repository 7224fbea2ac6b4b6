// Native replay runtime: harness inputs come from a file (VF_INPUTS), one value per line, in the order they are asked for.
#define VF_NATIVE
#include "vf.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <setjmp.h>
#include <sstream>
#include <string>
#include <vector>
static std::vector<std::string> in; static size_t pos = 0;
// completing a path that was not followed symbolically to its end: further values are the lowest allowed, or a multiple of 1/64 of the range
static const bool more = getenv("VF_MORE"); static unsigned asked = 0;
static std::string next(const char *n, double lo = 0, double hi = 0, bool whole = true) {
    if (pos >= in.size() && more && lo <= hi) { char b[64]; if (whole) snprintf(b, sizeof b, "%lld", (long long)lo); else printf("VF_REAL\n"), snprintf(b, sizeof b, "%.17g", lo + (hi - lo) * ((asked++ * 37 + 21) % 64) / 64); return b; }
    if (pos >= in.size()) { printf("VF_NOINPUT %s\n", n); fflush(stdout); _Exit(44); } return in[pos++]; }
static double d(const char *n, double lo = 0, double hi = 0) { return strtod(next(n, lo, hi, false).c_str(), nullptr); }
// an entry is first run on fixed values, as in the executor (engine/sx.cpp)
static int warm = 0; static unsigned long long warmed = 0; static jmp_buf given_up;
static long long warm_whole(long long lo, unsigned long long span) { auto k = warmed++; return warm == 1 ? lo : warm == 2 ? lo + (3 * k + 1) % ((span < 4 ? span : 4) + 1) : lo + (warm * 7919 + k * 104729 >> 3) % ((span < 7 ? span : 7) + 1); }
static double warm_real(double lo, double hi) { auto k = warmed++; return lo + (hi - lo) * ((k * 37 + (warm == 1 ? 21 : 8 * warm - 8)) % 64) / 64; }
extern "C" {
double vf_real(const char *n, double lo, double hi) { if (warm) return warm_real(lo, hi); return d(n, lo, hi); }
float vf_realf(const char *n, double lo, double hi) { if (warm) return (float)warm_real(lo, hi); return (float)d(n, lo, hi); }
double vf_fp64(const char *n) { if (warm) return warm_real(0, 1); return d(n); }
float vf_fp32(const char *n) { if (warm) return (float)warm_real(0, 1); return (float)d(n); }
int64_t vf_int(const char *n, int64_t lo, int64_t hi) { if (warm) { if (hi < lo) longjmp(given_up, 1); return warm_whole(lo, (unsigned long long)hi - lo); } return strtoll(next(n, lo, hi).c_str(), nullptr, 10); }
uint8_t vf_u8(const char *n) { if (warm) return (uint8_t)warm_whole(0, 255); return (uint8_t)strtoll(next(n).c_str(), nullptr, 10); }
uint32_t vf_u32(const char *n) { if (warm) return (uint32_t)warm_whole(0, 255); return (uint32_t)strtoll(next(n).c_str(), nullptr, 10); }
int64_t vf_pick(const char *n, int64_t lo, int64_t hi) { if (warm) { if (hi < lo) longjmp(given_up, 1); return warm_whole(lo, (unsigned long long)hi - lo); } return strtoll(next(n, lo, hi).c_str(), nullptr, 10); }
void vf_assume(bool c) { if (!c) { if (warm) longjmp(given_up, 1); printf("VF_ASSUME\n"); fflush(stdout); _Exit(43); } }
void vf_check(bool c, const char *l) { if (!c) { if (warm) longjmp(given_up, 1); printf("VF_FAIL %s\n", l); fflush(stdout); _Exit(42); } }
void vf_close(double a, double b, double tol, const char *l) {
    if (warm) return;
    if (std::isfinite(a)) printf("VF_OBS %s %.12g\n", l, a); else printf("VF_OBS %s null\n", l);
    if (!(a == b || std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b)))) { printf("VF_FAIL %s: %.12g vs %.12g\n", l, a, b); fflush(stdout); _Exit(42); } }
void vf_observe(const char *l, double a) { if (warm) return; if (std::isfinite(a)) printf("VF_OBS %s %.12g\n", l, a); else printf("VF_OBS %s null\n", l); }
void vf_cover(const char *) {}
void vf_fail(const char *l) { if (warm) longjmp(given_up, 1); printf("VF_FAIL %s\n", l); fflush(stdout); _Exit(42); }
int64_t vf_live_heap() { return 0; }
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[2], "r"); char b[256]; if (!f) return 3;
    while (fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && (s.back() == '\n')) s.pop_back(); in.push_back(s); }
    fclose(f);
    auto e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { printf("no entry\n"); return 3; }
    std::istringstream runs(getenv("VF_WARM") ? getenv("VF_WARM") : ""); std::string name; auto restore = (void (*)())dlsym(RTLD_DEFAULT, "vf_restore");
    for (int w; runs >> name >> w;) {
        auto before = (void (*)())dlsym(RTLD_DEFAULT, name.c_str()); if (!before) continue;
        warmed = 0; warm = w; if (!setjmp(given_up)) { try { before(); } catch (...) {} }
        warm = 0; if (restore) restore();
    }
    e(); printf("VF_DONE\n"); fflush(stdout); _Exit(0);
}
