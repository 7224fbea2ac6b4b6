// S05: header values.
#include "fil.hpp"
using H5::PredType;
// the types numbers are stored with; big: other byte order
static Attr stored(int type, bool big, int64_t v) {
    static const struct { H5T_class_t c; int n; bool s; } TYPES[] = {{H5T_INTEGER, 1, true}, {H5T_INTEGER, 1, false}, {H5T_INTEGER, 2, true}, {H5T_INTEGER, 2, false}, {H5T_INTEGER, 4, true}, {H5T_INTEGER, 4, false}, {H5T_INTEGER, 8, true}, {H5T_INTEGER, 8, false}, {H5T_FLOAT, 4, true}, {H5T_FLOAT, 8, true}};
    Attr a; a.type = PredType(TYPES[type].c, TYPES[type].n, TYPES[type].s, big); a.i = v; a.f = (double)v; return a;
}
static const int64_t MOST = 9223372036854775807ll; static const int64_t LOW[] = {-128, 0, -32768, 0, -2147483648ll, 0, -MOST - 1, 0, -(1 << 24), -(1ll << 53)}, HIGH[] = {127, 255, 32767, 65535, 2147483647, 4294967295ll, MOST, MOST, 1 << 24, 1ll << 53};
static int64_t least(int64_t a, int64_t b) { return a < b ? a : b; } static int64_t most(int64_t a, int64_t b) { return a > b ? a : b; }
template <class T> static void number_as(int64_t lo, int64_t hi) {
    int type = vf_pick("stored", 0, 9); bool big = vf_pick("other byte order", 0, 1); Header h; file_of(h, false); int64_t low = most(lo, LOW[type]), high = least(hi, HIGH[type]), v = 0; if (type < 8) v = vf_int("value", low, high); else { const int64_t V[] = {low, 0, 1, 77, 200, high / 3, high - 1, high}; v = V[vf_pick("value", 0, 7)]; } h5model::files["file.h5"].attrs["number"] = stored(type, big, v);
    h5_filterbank_file f("file.h5"); T got = f.read_data_attr<T>("number"); vf_check(got == (T)v, "the stored value"); vf_cover("end");
}
ENTRY e_double() { number_as<double>(-(1ll << 53), 1ll << 53); }
ENTRY e_float() { number_as<float>(-(1 << 24), 1 << 24); }
ENTRY e_int64() { number_as<int64_t>(-MOST - 1, MOST); }
ENTRY e_int32() { number_as<int32_t>(-2147483648ll, 2147483647); }
ENTRY e_small() { if (vf_pick("signed", 0, 1)) number_as<int16_t>(-32768, 32767); else number_as<uint8_t>(0, 255); }
ENTRY e_unsigned() { if (vf_pick("bits", 0, 1)) number_as<uint64_t>(0, MOST); else number_as<uint32_t>(0, 4294967295ll); }
ENTRY e_fraction() { double v = vf_real("value", -1e6, 1e6); bool single = vf_pick("single", 0, 1), big = vf_pick("other byte order", 0, 1); Attr a = stored(single ? 8 : 9, big, 0); a.f = v; Header h; file_of(h, false); h5model::files["file.h5"].attrs["number"] = a; h5_filterbank_file f("file.h5"); vf_close(f.read_data_attr<double>("number"), v, 0, "the stored value"); vf_close(f.read_data_attr<float>("number"), v, 0, "in single precision"); vf_cover("end"); }
ENTRY e_text() {
    static const char *S[] = {"Voyager", "", "B", "a name longer than a small string"}; int k = vf_pick("text", 0, 3), form = vf_pick("form", 0, 2); std::string s = S[k]; Attr a = text(s); if (form) { a.type.variable = false; a.type.size = s.size() + (form == 2 ? 5 : s.empty()); } Header h; file_of(h, false); h5model::files["file.h5"].attrs["source_name"] = a; scan x("file.h5", 6); vf_check(x.source_name() == s, "the text, without padding"); vf_check(x.read_coarse_channel(1)->source_name() == s, "in coarse channels"); vf_cover("end");
}
ENTRY e_kinds() { // a text is not a number and a number is not a text
    Header h; file_of(h, false); auto &d = h5model::files["file.h5"]; d.attrs["t"] = text("5"); d.attrs["f"] = text("5"); d.attrs["f"].type.variable = false; d.attrs["n"] = stored(vf_pick("stored", 0, 9), false, 65); h5_filterbank_file f("file.h5"); vf_check(throws([&] { f.read_data_attr<double>("t"); }) && throws([&] { f.read_data_attr<int64_t>("t"); }) && throws([&] { f.read_data_attr<double>("f"); }) && throws([&] { f.read_data_attr<int64_t>("f"); }), "a text is not a number"); vf_check(throws([&] { f.read_data_attr<std::string>("n"); }), "a number is not a text"); vf_check(throws([&] { f.read_data_attr<double>("none"); }) && throws([&] { f.read_data_attr<std::string>("none"); }), "and what is not there is neither"); vf_cover("end");
}
// a scan and its coarse channels describe themselves as the header does
static const char *REALS[] = {"fch1", "foff", "tsamp", "tstart", "src_dej", "src_raj", "az_start", "za_start"}; static const char *INTS[] = {"machine_id", "telescope_id", "data_type", "nbits", "nifs"};
ENTRY e_scan() {
    Header h; h.nchans = 12; file_of(h, false); auto &d = h5model::files["file.h5"]; double r[8]; int64_t n[5]; int shape = vf_pick("stored", 0, 3); for (int k = 0; k < 8; ++k) { r[k] = k == 1 ? vf_real("value", 0.1, 3) : k == 2 ? vf_real("value", 0.1, 20) : vf_real("value", -1000, 1000); Attr a = stored(shape & 1 ? 8 : 9, shape & 2, 0); a.f = r[k]; d.attrs[REALS[k]] = a; } for (int k = 0; k < 5; ++k) { int t = (k + 3 * shape) % 8; n[k] = vf_int("number", LOW[t], HIGH[t]); d.attrs[INTS[k]] = stored(t, shape & 2, n[k]); }
    scan s("file.h5", 4); vf_check(s.fch1() == r[0] && s.foff() == r[1] && s.tsamp() == r[2] && s.tstart() == r[3] && s.src_dej() == r[4] && s.src_raj() == r[5] && s.az_start() == r[6] && s.za_start() == r[7], "the scan's values"); vf_check(s.machine_id() == n[0] && s.telescope_id() == n[1] && s.data_type() == n[2] && s.nbits() == n[3] && s.nifs() == n[4] && s.nchans() == 12 && s.ntsteps() == 2, "its numbers"); vf_close(s.tduration_secs(), 2 * r[2], 1e-9, "its duration");
    auto c = s.read_coarse_channel(1); vf_close(c->fch1(), r[0] + 4 * r[1], 1e-6, "first frequency of the coarse channel"); vf_check(c->foff() == r[1] && c->tsamp() == r[2] && c->tstart() == r[3] && c->src_dej() == r[4] && c->src_raj() == r[5] && c->az_start() == r[6] && c->za_start() == r[7], "its values"); vf_check(c->machine_id() == n[0] && c->telescope_id() == n[1] && c->data_type() == n[2] && c->nbits() == n[3] && c->nifs() == n[4] && c->nchans() == 4 && c->ntsteps() == 2, "its numbers"); vf_check(s.source_name() == "Voyager" && c->source_name() == "Voyager", "and names"); vf_cover("end");
}
ENTRY e_optional() { // values that may be missing, in any combination: identifiers and pointing have none, the rest is what the data are
    static const char *O[] = {"machine_id", "az_start", "za_start", "data_type", "nbits", "nifs"}; Header h; file_of(h, false); auto &d = h5model::files["file.h5"]; int there = vf_pick("there", 0, 63); int64_t id = vf_int("machine", 1, 1000), type = vf_int("data type", 2, 1000), bits = vf_int("bits", 1, 31), feeds = vf_int("feeds", 2, 1000); double az = vf_real("az", -400, 400), za = vf_real("za", -400, 400);
    d.attrs["machine_id"] = number(id); d.attrs["data_type"] = number(type); d.attrs["nbits"] = number(bits); d.attrs["nifs"] = number(feeds); d.attrs["az_start"] = real(az); d.attrs["za_start"] = real(za); for (int i = 0; i < 6; ++i) if (!(there >> i & 1)) d.attrs.erase(O[i]); scan s("file.h5", 6); auto c = s.read_coarse_channel(0); auto missing = [&](int i) { return !(there >> i & 1); };
    bool m = throws([&] { c->machine_id(); }), a = throws([&] { c->az_start(); }), z = throws([&] { c->za_start(); }); vf_check(m == missing(0) && a == missing(1) && z == missing(2), "none instead of a made-up value"); vf_check(throws([&] { s.machine_id(); }) == m && throws([&] { s.az_start(); }) == a && throws([&] { s.za_start(); }) == z, "nor in the scan"); int64_t t = missing(3) ? 1 : type, b = missing(4) ? 32 : bits, n = missing(5) ? 1 : feeds; vf_check(s.data_type() == t && c->data_type() == t, "data type"); vf_check(s.nbits() == b && c->nbits() == b, "bits of a sample"); vf_check(s.nifs() == n && c->nifs() == n, "number of feeds"); if (!m) vf_check(c->machine_id() == id && s.machine_id() == id, "machine"); if (!a) vf_check(c->az_start() == az && s.az_start() == az, "azimuth"); if (!z) vf_check(c->za_start() == za && s.za_start() == za, "zenith angle"); vf_cover("end");
}
ENTRY e_required() { static const char *R[] = {"fch1", "foff", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "nchans", "DIMENSION_LABELS"}; Header h; file_of(h, false); h5model::files["file.h5"].attrs.erase(R[vf_pick("missing", 0, 9)]); vf_check(throws([&] { scan s("file.h5", 6); }), "a file without a required value is rejected"); vf_cover("end"); }
