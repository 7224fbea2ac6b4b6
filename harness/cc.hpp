// Coarse channels with chosen contents for the search, flagging and estimation properties.
#pragma once
#include "arr.hpp"
#include <core/coarse_channel.hpp>
#include <core/flag_values.hpp>
#include <core/frequency_drift_plane.hpp>
#include <core/hit.hpp>
#include <core/noise_power.hpp>
#include <list>
using namespace bliss;
static inline coarse_channel channel(const ndarray &data, const ndarray &mask, double fch1 = 1000, double foff = -0.5, double tsamp = 2, double tstart = 5, int64_t number = 0) {
    return coarse_channel(data, mask, fch1, foff, (int64_t)20, (int64_t)32, data.shape()[1], data.shape()[0], (int64_t)1, std::string("src"), 1.0, 2.0, (int64_t)6, tsamp, tstart, (int64_t)1, 0.0, 0.0, number);
}
static inline ndarray plain(const Shape &s, float v = 0) { return ndarray(s, v, dt<float>(), CPU()); }
static inline ndarray plain_mask(const Shape &s, uint8_t v = 0) { ndarray m(s, dt<uint8_t>(), CPU()); for (int64_t i = 0; i < count(s); ++i) m.data_ptr<uint8_t>()[i] = v; return m; }
static inline integrate_drifts_options rates(int64_t lo, int64_t hi, int64_t step = 1, bool desmear = true) { integrate_drifts_options o; o.low_rate = lo; o.high_rate = hi; o.rate_step_size = step; o.desmear = desmear; return o; }
static inline int64_t iabs(int64_t x) { return x < 0 ? -x : x; }
// a drift plane with given cells (row-major), smearing widths per row and distinct flag counts in every cell
static inline uint8_t low_count(int64_t i) { return (uint8_t)(1 + i); }
static inline uint8_t high_count(int64_t i) { return (uint8_t)(81 + i); }
static inline uint8_t rolloff_count(int64_t i) { return (uint8_t)(161 + i); }
static inline frequency_drift_plane drift_plane(const ndarray &cells, int64_t T, int wide) {
    int64_t D = cells.shape()[0], n = cells.shape()[1]; integrated_flags f(D, n, CPU());
    for (int64_t i = 0; i < D * n; ++i) { f.low_spectral_kurtosis.data_ptr<uint8_t>()[i] = low_count(i); f.high_spectral_kurtosis.data_ptr<uint8_t>()[i] = high_count(i); f.filter_rolloff.data_ptr<uint8_t>()[i] = rolloff_count(i); }
    std::vector<frequency_drift_plane::drift_rate> t; for (int i = 0; i < D; ++i) { frequency_drift_plane::drift_rate r; r.index_in_plane = i; r.drift_channels_span = i - 1; r.drift_rate_slope = 0.25 * (i - 1); r.drift_rate_Hz_per_sec = 0.3671 * (i - 1); r.desmeared_bins = wide && i % 2 ? 4 : 1; t.push_back(r); }
    frequency_drift_plane p(cells, f, T, t); p.set_device(CPU()); return p;
}
static inline noise_stats noise(float floor, float power) { noise_stats s; s.set_noise_floor(ndarray({1}, floor, dt<float>(), CPU())); s.set_noise_power(ndarray({1}, power, dt<float>(), CPU())); return s; }
