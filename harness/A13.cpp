// A13: a raw file holds exactly an array's elements, and reading it gives them back.
#include <fstream>
#include "arr.hpp"
using vffs::files; FRESH_IN(vffs, files); FRESH_IN(vffs, forbidden); FRESH_IN(vffs, room);
static Shape shape_of(int64_t i) { static const Shape S[] = {{3}, {2, 3}, {1}, {2, 2, 2}, {3, 1}, {1, 4}, {2, 3, 1, 2}}; return S[i]; }
template <class T> static T stored(const std::string &f, int64_t n) { T x; std::memcpy(&x, files[f].data() + n * sizeof(T), sizeof(T)); return x; }
// what is written is the row-major element sequence, at the array's own type and nothing else
template <class T> static void written(int ns) {
    Shape sh = shape_of(vf_pick("shape", 0, ns - 1)); auto a = make<T>("a", sh, vf_pick("layout", 0, NLAYOUTS - 1)); vf_assume(view_ok(a));
    bool older = vf_pick("older file", 0, 1); if (older) files["x.raw"] = std::vector<unsigned char>(500, 7);
    bland::write_to_file(a.v, "x.raw");
    bool there = files.count("x.raw") == 1 && files.size() == 1; vf_check(there, "the named file is written"); if (!there) return;
    bool whole = (int64_t)files["x.raw"].size() == a.n() * (int64_t)sizeof(T); vf_check(whole, "one element after the other and nothing else"); if (!whole) return;
    for (int64_t n = 0; n < a.n(); ++n) vf_check(stored<T>("x.raw", n) == a.at(n), "element in row-major order");
    a.unchanged("writing does not modify the array");
    ndarray r = bland::read_from_file("x.raw", dt<T>());
    bool flat = same(r.shape(), {a.n()}) && r.dtype() == dt<T>(); vf_check(flat, "read back flat with the type asked for"); if (!flat) return;
    for (int64_t n = 0; n < a.n(); ++n) vf_check(get<T>(r, n) == a.at(n), "the element read back");
    vf_check((int64_t)files["x.raw"].size() == a.n() * (int64_t)sizeof(T), "reading does not modify the file");
    vf_cover("end");
}
ENTRY e_f32() { written<float>(5 + 2 * THOROUGH); }
ENTRY e_u8() { written<uint8_t>(5 + 2 * THOROUGH); }
ENTRY e_i32() { written<int32_t>(3 + 4 * THOROUGH); }
ENTRY e_u32() { written<uint32_t>(3 + 4 * THOROUGH); }
ENTRY e_i64() { // made from a wider type
    ndarray a({3}, dt<int64_t>(), CPU()); int64_t v[3]; for (int i = 0; i < 3; ++i) a.data_ptr<int64_t>()[i] = v[i] = vf_int("v", -(1LL << 60), 1LL << 60);
    bland::write_to_file(a, "x.raw"); bool whole = files["x.raw"].size() == 24; vf_check(whole, "one element after the other and nothing else"); if (!whole) return;
    for (int i = 0; i < 3; ++i) vf_check(stored<int64_t>("x.raw", i) == v[i], "element in order");
    ndarray r = bland::read_from_file("x.raw", dt<int64_t>()); bool flat = same(r.shape(), {3}); vf_check(flat, "read back"); if (!flat) return;
    for (int i = 0; i < 3; ++i) vf_check(r.data_ptr<int64_t>()[i] == v[i], "the element read back");
    vf_cover("end");
}
// a file of any contents and any length: the elements it holds, or an exception, never memory beyond
template <class T> static void any_file() {
    int64_t len = vf_pick("bytes", 0, 17); auto &f = files["in.raw"]; f.resize(len); std::vector<uint8_t> b(len); for (int64_t i = 0; i < len; ++i) f[i] = b[i] = vf_u8("byte");
    ndarray r({1}, dt<uint8_t>(), CPU()); bool bad = throws([&] { r = bland::read_from_file("in.raw", dt<T>()); });
    int64_t n = len / sizeof(T); if (len % sizeof(T) == 0) vf_check(!bad, "a file of whole elements is read");
    if (bad) { vf_cover("rejected"); return; }
    bool flat = same(r.shape(), {n}) && r.dtype() == dt<T>(); vf_check(flat, "as many elements as the file holds"); if (!flat) return;
    for (int64_t i = 0; i < n * (int64_t)sizeof(T); ++i) vf_check(r.data_ptr<uint8_t>()[i] == b[i], "the bytes of the file");
    vf_cover("end");
}
ENTRY e_any_u8() { any_file<uint8_t>(); }
ENTRY e_any_i32() { any_file<int32_t>(); }
ENTRY e_any_i64() { any_file<int64_t>(); }
// files that are not there, cannot be made or do not fit
ENTRY e_failures() {
    ndarray a({4}, dt<float>(), CPU()); for (int i = 0; i < 4; ++i) a.data_ptr<float>()[i] = i;
    vf_check(throws([] { bland::read_from_file("none.raw", dt<float>()); }), "a missing file is reported");
    vffs::forbidden = true; vf_check(throws([&] { bland::write_to_file(a, "x.raw"); }), "a file that cannot be made is reported"); vffs::forbidden = false;
    vffs::room = vf_pick("room", 0, 17);
    bool bad = throws([&] { bland::write_to_file(a, "x.raw"); }); vf_check(bad == (vffs::room < 0 || files["x.raw"].size() != 16), "exactly an incomplete file is reported");
    vf_cover("end");
}
// the path is the one given, and one file does not touch another
ENTRY e_paths() {
    ndarray a({2}, dt<float>(), CPU()), b({3}, dt<float>(), CPU()); float v[5]; for (int i = 0; i < 5; ++i) v[i] = vf_realf("v", -100, 100);
    for (int i = 0; i < 2; ++i) a.data_ptr<float>()[i] = v[i]; for (int i = 0; i < 3; ++i) b.data_ptr<float>()[i] = v[2 + i];
    std::string path = "dir/first.raw.old"; std::string_view cutoff(path.data(), 13);
    bland::write_to_file(a, cutoff); bland::write_to_file(b, "dir/second.raw");
    bool two = files.size() == 2 && files.count("dir/first.raw") && files.count("dir/second.raw"); vf_check(two, "the files named, and no other"); if (!two) return;
    bool sizes = files["dir/first.raw"].size() == 8 && files["dir/second.raw"].size() == 12; vf_check(sizes, "of their own sizes"); if (!sizes) return;
    for (int i = 0; i < 2; ++i) vf_check(stored<float>("dir/first.raw", i) == v[i], "the first array"); for (int i = 0; i < 3; ++i) vf_check(stored<float>("dir/second.raw", i) == v[2 + i], "the second array");
    ndarray r = bland::read_from_file(cutoff, dt<float>()); vf_check(same(r.shape(), {2}) && r.data_ptr<float>()[0] == v[0] && r.data_ptr<float>()[1] == v[1], "the first array read back");
    vf_cover("end");
}
ENTRY e_long() { // more bytes and elements than 16 bits count
    SPARSE = 16384; int sliced = vf_pick("sliced", 0, 1); auto a = make<float>("a", sliced ? Shape{300, 260} : Shape{70000}, sliced ? OFFSET : DENSE); vf_assume(view_ok(a)); bland::write_to_file(a.v, "x.raw"); bool whole = (int64_t)files["x.raw"].size() == a.n() * 4; vf_check(whole, "one element after the other and nothing else"); if (!whole) return;
    const float *f = (const float *)files["x.raw"].data(); for (int64_t n = 0; n < a.n(); ++n) vf_check(f[n] == a.at(n), "element in row-major order"); ndarray r = bland::read_from_file("x.raw", dt<float>()); bool flat = same(r.shape(), {a.n()}); vf_check(flat, "read back flat with the type asked for"); if (!flat) return;
    auto in = places(r, {a.n()}); for (int64_t n = 0; n < a.n(); ++n) vf_check(r.data_ptr<float>()[in[n]] == a.at(n), "the element read back"); vf_cover("end");
}
