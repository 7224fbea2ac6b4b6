// Hits in Cap'n Proto files, over the model of files in fakecapnp.
#pragma once
#include "fil.hpp"
#include <core/event.hpp>
#include <core/hit.hpp>
#include <hit.capnp.c++>
#include <capnp/serialize.h>
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
FRESH_IN(fakefs, files); FRESH_IN(fakefs, full); FRESH_IN(fakefs, fds); FRESH_IN(fakefs, next_fd);
extern "C" {
__attribute__((used)) int open(const char *p, int flags, ...) { return fakefs::open_(p, flags); } // renamed: see specs.py
__attribute__((used)) int close(int fd) { fakefs::fds.erase(fd); return 0; }
__attribute__((used)) int stat(const char *p, struct stat *) { return fakefs::files.count(p) ? 0 : -1; }
}
static hit any_hit() { hit h; h.start_freq_index = vf_int("index", -2147483648ll, 2147483647); h.rate_index = vf_int("rate index", -2147483648ll, 2147483647); h.time_span_steps = vf_int("steps", -2147483648ll, 2147483647); h.binwidth = vf_int("width", 0, 1 << 24); h.coarse_channel_number = vf_int("coarse channel", 0, 1 << 20); return h; }
static double number_(double x) { vf_assume(x == x); return x; }
static hit full_hit() { // every value but NaN
    hit h = any_hit(); h.start_freq_MHz = number_(vf_fp64("frequency")); h.start_time_sec = number_(vf_fp64("start")); h.duration_sec = number_(vf_fp64("duration")); h.drift_rate_Hz_per_sec = number_(vf_fp64("drift")); h.power = number_(vf_fp64("power"));
    h.snr = vf_fp32("snr"); h.bandwidth = vf_fp32("bandwidth"); vf_assume((h.snr == h.snr) & (h.bandwidth == h.bandwidth)); return h;
}
static hit fixed_hit(int64_t k) { hit h; h.start_freq_index = 3 * k; h.rate_index = k % 1000; h.time_span_steps = 16 + k; h.coarse_channel_number = k / 7; h.binwidth = k % 5; h.start_freq_MHz = 1420.40575 + k / 3.; h.start_time_sec = 5e9 + k * 1024.; h.duration_sec = 300 + k / 8.; h.drift_rate_Hz_per_sec = k / 11. - 1; h.power = k * 128; h.snr = 10 + k / 16.; h.bandwidth = k / 32.; return h; }
static hit numbered_hit() { // any indices, other values that tell hits apart
    static int n = 0; double k = ++n; hit h = any_hit(); h.binwidth = n % 5; h.start_freq_MHz = 1420.40575 + k / 3; h.start_time_sec = 5e9 + k / 7; h.duration_sec = 300 + k / 9; h.drift_rate_Hz_per_sec = k / 11 - 1; h.power = k * 1e5 + .1; h.snr = 10 + k / 13; h.bandwidth = k / 17; return h;
}
