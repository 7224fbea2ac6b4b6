// Flaggers applied to coarse channels with symbolic power and symbolic prior flags.
#pragma once
#include "cc.hpp"
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
struct Input {
    Shape shape; Arr<float> x; Arr<uint8_t> m; coarse_channel cc;
    Input(const Shape &s, int data_layout, int mask_layout, double lo = 0.25, double hi = 100, double foff = -0.5, double tsamp = 2) : shape(s), x(make<float>("power", s, data_layout, lo, hi)), m(make<uint8_t>("flags", s, mask_layout)), cc(channel(x.v, m.v, 1000, foff, tsamp)) { vf_assume(view_ok(x) && view_ok(m)); }
    void unchanged() { x.unchanged("the data are not changed"); m.unchanged("the flags of the channel given are not changed"); }
};
// the flags of a channel, as an array of its shape
static inline ndarray flags_of(coarse_channel &c, const Shape &s) { ndarray m = c.mask(); bool ok = m.shape() == s && m.dtype() == dt<uint8_t>(); vf_check(ok, "a flag for every sample"); vf_assume(ok); return m; }
