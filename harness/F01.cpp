// F01: flagging adds only its own flag.
#include "flag.hpp"
static void adds(Input &in, uint8_t own, coarse_channel (*f)(coarse_channel)) {
    auto a = f(in.cc); ndarray m = flags_of(a, in.shape); std::vector<uint8_t> got; int64_t n = count(in.shape); for (int64_t i = 0; i < n; ++i) got.push_back(get<uint8_t>(m, i));
    for (int64_t i = 0; i < n; ++i) { uint8_t was = in.m.at(i); vf_check((uint8_t)(got[i] & was) == was, "no flag is lost"); vf_check((uint8_t)((got[i] ^ was) & ~own) == 0, "no other flag is set"); }
    in.unchanged(); ndarray again = flags_of(a, in.shape); for (int64_t i = 0; i < n; ++i) vf_check(get<uint8_t>(again, i) == got[i], "reading the flags again gives the same");
    auto b = f(a); ndarray twice = flags_of(b, in.shape); for (int64_t i = 0; i < n; ++i) vf_check(get<uint8_t>(twice, i) == got[i], "flagging again changes nothing");
    ndarray d = a.data(); bool ok = d.shape() == in.shape; vf_check(ok, "shape of the data"); if (ok) for (int64_t i = 0; i < n; ++i) vf_check(get<float>(d, i) == in.x.at(i), "the data are kept"); in.unchanged();
    ndarray old = flags_of(in.cc, in.shape); for (int64_t i = 0; i < n; ++i) vf_check(get<uint8_t>(old, i) == in.m.at(i), "the channel given keeps its flags"); vf_cover("end");
}
static Input given(const Shape &s) { int l = vf_pick("layout", 0, NLAYOUTS - 1); return Input(s, l, (l * 2 + 1) % NLAYOUTS); }
static float width, level; static int iterations;
ENTRY e_rolloff() { static const Shape S[] = {{2, 5}, {1, 4}, {3, 1}}; static const float W[] = {0, 0.25f, 0.3f, 0.5f, 0.75f, 1}; auto in = given(S[vf_pick("shape", 0, 2)]); width = W[vf_pick("width", 0, 5)]; adds(in, 1, [](coarse_channel c) { return flag_filter_rolloff(c, width); }); }
ENTRY e_kurtosis() { auto in = given({3, 2}); adds(in, 6, [](coarse_channel c) { return flag_spectral_kurtosis(c, 2.f, 4.f, 1.f); }); }
ENTRY e_magnitude() { static const Shape S[] = {{2, 3}, {1, 4}}; auto in = given(S[vf_pick("shape", 0, 1)]); level = vf_realf("level", 0, 100); adds(in, 16, [](coarse_channel c) { return flag_magnitude(c, level); }); }
ENTRY e_default_magnitude() { auto in = given({2, 2}); adds(in, 16, [](coarse_channel c) { return flag_magnitude(c); }); }
ENTRY e_sigmaclip() { auto in = given({1, 3}); iterations = vf_pick("iterations", 0, THOROUGH ? 2 : 1); adds(in, 32, [](coarse_channel c) { return flag_sigmaclip(c, iterations, 1.125f, 1.0625f); }); }
ENTRY e_all() { // one after another, in either order
    Input in({2, 4}, DENSE, DENSE); bool back = vf_pick("order", 0, 1); level = vf_realf("level", 0, 100); auto c = in.cc; c = back ? flag_filter_rolloff(flag_magnitude(c, level), 0.25f) : flag_magnitude(flag_filter_rolloff(c, 0.25f), level);
    ndarray m = flags_of(c, in.shape); for (int64_t i = 0; i < 8; ++i) { bool edge = i % 4 == 0 || i % 4 == 3, high = in.x.at(i) > level; uint8_t want = in.m.at(i) | (edge ? 1 : 0) | (high ? 16 : 0); vf_check(get<uint8_t>(m, i) == want, "every flag of every flagger"); } in.unchanged(); vf_cover("end");
}
ENTRY e_long() { // more channels or spectra than 8 bits count
    SPARSE = 97; static const Shape S[] = {{2, 300}, {300, 2}}; Input in(S[vf_pick("shape", 0, 1)], DENSE, vf_pick("layout", 0, 1) ? OFFSET : DENSE); width = 0.25f; level = 50; iterations = 1; switch (vf_pick("flagger", 0, 2)) { case 0: adds(in, 1, [](coarse_channel c) { return flag_filter_rolloff(c, width); }); break; case 1: adds(in, 16, [](coarse_channel c) { return flag_magnitude(c, level); }); break; default: adds(in, 6, [](coarse_channel c) { return flag_spectral_kurtosis(c, 2.f, 4.f, 1.f); }); }
}
