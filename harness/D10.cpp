// D10: order, equality and state of hits.
#include "vf.h"
#include <core/hit.hpp>
#include <string>
using namespace bliss;
#define ENTRY extern "C" __attribute__((used)) void
static const int FIELDS = 14;
static hit base() { hit h; h.start_freq_index = 10; h.start_freq_MHz = 1000.5; h.start_time_sec = 7; h.duration_sec = 300; h.rate_index = 3; h.drift_rate_Hz_per_sec = 0.25; h.power = 60; h.time_span_steps = 16; h.snr = 12; h.bandwidth = 4; h.binwidth = 2; h.rfi_counts[flag_values::low_spectral_kurtosis] = 1; h.coarse_channel_number = 5; return h; }
static void put(hit &h, int f, double r, int64_t i) {
    switch (f) { case 0: h.start_freq_index = i; break; case 1: h.start_freq_MHz = r; break; case 2: h.start_time_sec = r; break; case 3: h.duration_sec = r; break; case 4: h.rate_index = i; break; case 5: h.drift_rate_Hz_per_sec = r; break; case 6: h.power = r; break;
    case 7: h.time_span_steps = i; break; case 8: h.snr = r; break; case 9: h.bandwidth = r; break; case 10: h.binwidth = i; break; case 11: h.rfi_counts[flag_values::low_spectral_kurtosis] = (uint8_t)(i & 255); break; case 12: h.rfi_counts[flag_values::filter_rolloff] = (uint8_t)(i & 255); break; case 13: h.coarse_channel_number = i; }
}
static bool isreal(int f) { return f == 1 || f == 2 || f == 3 || f == 5 || f == 6 || f == 8 || f == 9; }
static bool same_field(const hit &a, const hit &b, int f) {
    switch (f) { case 0: return a.start_freq_index == b.start_freq_index; case 1: return a.start_freq_MHz == b.start_freq_MHz; case 2: return a.start_time_sec == b.start_time_sec; case 3: return a.duration_sec == b.duration_sec; case 4: return a.rate_index == b.rate_index; case 5: return a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec; case 6: return a.power == b.power;
    case 7: return a.time_span_steps == b.time_span_steps; case 8: return a.snr == b.snr; case 9: return a.bandwidth == b.bandwidth; case 10: return a.binwidth == b.binwidth; case 11: case 12: return a.rfi_counts == b.rfi_counts; default: return a.coarse_channel_number == b.coarse_channel_number; }
}
static void vary(hit &h, int f, const char *n) { if (isreal(f)) put(h, f, vf_real(n, -1000, 1000), 0); else if (f == 11 || f == 12) put(h, f, 0, vf_u8(n)); else put(h, f, 0, vf_int(n, -1000000, 1000000)); }
ENTRY e_fields() { // hits are equal exactly when no field differs
    hit a = base(), b = base(); int f = vf_pick("field", 0, FIELDS - 1), g = vf_pick("other", 0, FIELDS - 1); if (f > g) return; vary(a, f, "a"); vary(b, f, "b"); if (g != f) { vary(a, g, "c"); vary(b, g, "d"); }
    bool eq = a == b, lt = a < b, gt = b < a; vf_check((b == a) == eq, "equality is symmetric"); vf_check(eq ? !lt && !gt : lt != gt, "exactly one of less, equal and greater"); vf_check(eq == (same_field(a, b, f) && same_field(a, b, g)), "equal exactly when every field is");
    vf_check(a == a && b == b && !(a < a) && !(b < b), "reflexive equality, irreflexive order"); vf_cover("end");
}
ENTRY e_triples() {
    hit h[3] = {base(), base(), base()}; int f = vf_pick("field", 0, FIELDS - 1), g = f + (THOROUGH ? vf_pick("step", 1, 6) : 1 + 2 * (f % 3)); for (auto &x : h) { vary(x, f, "x"); if (g < FIELDS) vary(x, g, "y"); }
    bool ab = h[0] < h[1], bc = h[1] < h[2], ac = h[0] < h[2]; if (ab && bc) vf_check(ac, "transitive order"); if (!ab && !bc && !(h[1] < h[0]) && !(h[2] < h[1])) vf_check(!ac && !(h[2] < h[0]), "transitive equivalence");
    if (h[0] == h[1] && h[1] == h[2]) vf_check(h[0] == h[2], "transitive equality"); vf_cover("end");
}
static void restored(const hit &a) {
    hit b = base(); b.rfi_counts[flag_values::sigma_clip] = 9; b.set_state(a.get_state()); for (int f = 0; f < FIELDS; ++f) vf_check(same_field(a, b, f), "restored field"); vf_check(a == b && b == a, "a restored hit is equal"); vf_cover("end");
}
ENTRY e_state() { hit a = base(); for (int f = 0; f < 11; ++f) if (!isreal(f)) put(a, f, 0, vf_int("i", INT64_MIN / 2, INT64_MAX / 2)); a.coarse_channel_number = vf_int("n", INT64_MIN / 2, INT64_MAX / 2); a.rfi_counts.clear(); int e = vf_pick("entries", 0, 7); flag_values F[] = {flag_values::filter_rolloff, flag_values::low_spectral_kurtosis, flag_values::high_spectral_kurtosis}; for (int i = 0; i < 3; ++i) if (e >> i & 1) a.rfi_counts[F[i]] = vf_u8("count"); restored(a); }
ENTRY e_state_real() { // every finite value at full precision
    hit a = base(); int f = vf_pick("field", 1, 9); if (!isreal(f)) return; if (f == 8 || f == 9) { float v = vf_fp32("v"); vf_assume(v == v); if (f == 8) a.snr = v; else a.bandwidth = v; } else { double v = vf_fp64("v"); vf_assume(v == v); put(a, f, v, 0); } restored(a);
}
