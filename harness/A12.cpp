// A12: type and device names.
#include "arr.hpp"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
extern "C" __attribute__((used)) long strtol(const char *s, char **e, int base) noexcept { // the library's takes no symbolic text; base 10 only
    const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p; bool neg = *p == '-'; if (*p == '-' || *p == '+') ++p; const char *first = p; long v = 0; bool big = false; for (; *p >= '0' && *p <= '9'; ++p) { if (v > (LONG_MAX - (*p - '0')) / 10) big = true; else v = 10 * v + (*p - '0'); }
    if (e) *e = (char *)(p == first ? s : p); if (big) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? -v : v;
}
struct TName { const char *n; uint8_t code, bits; };
static const TName T[] = {{"float", kDLFloat, 32}, {"float32", kDLFloat, 32}, {"double", kDLFloat, 64}, {"float64", kDLFloat, 64}, {"int", kDLInt, 64}, {"int64", kDLInt, 64}, {"int32", kDLInt, 32}, {"int16", kDLInt, 16}, {"int8", kDLInt, 8}, {"uint", kDLUInt, 64}, {"uint64", kDLUInt, 64}, {"uint32", kDLUInt, 32}, {"uint16", kDLUInt, 16}, {"uint8", kDLUInt, 8}};
// every string of the given length: the names it equals decide what it must parse to
static void type_string(int n) {
    char s[8]; for (int i = 0; i < n; ++i) s[i] = (char)vf_u8("c");
    const TName *t = nullptr; for (auto &k : T) if ((int)strlen(k.n) == n) { bool eq = true; for (int i = 0; i < n; ++i) eq = eq && s[i] == k.n[i]; if (eq) { t = &k; break; } }
    bool ok = true; uint8_t code = 0, bits = 0; uint16_t lanes = 0;
    try { ndarray::datatype d(std::string_view(s, n)); if (t) { code = d.code; bits = d.bits; lanes = d.lanes; } } catch (const std::exception &) { ok = false; }
    vf_check(ok == (t != nullptr), "exactly the supported type names are accepted");
    if (t && ok) { vf_check(code == t->code && bits == t->bits && lanes == 1, "name parses to the type it names"); vf_cover("named"); }
    vf_cover("end");
}
ENTRY e_type_0() { type_string(0); vf_cover("named"); }
ENTRY e_type_3() { type_string(3); }
ENTRY e_type_4() { type_string(4); }
ENTRY e_type_5() { type_string(5); }
ENTRY e_type_6() { type_string(6); }
ENTRY e_type_7() { type_string(7); }
ENTRY e_type_2() { type_string(2); vf_cover("named"); }
ENTRY e_type_8() { type_string(8); vf_cover("named"); }
// element types compare equal exactly when code, width and lanes agree
ENTRY e_type_equality() {
    DLDataType a, b; a.code = vf_u8("c"); b.code = vf_u8("c"); a.bits = vf_u8("b"); b.bits = vf_u8("b"); a.lanes = (uint16_t)vf_u32("l"); b.lanes = (uint16_t)vf_u32("l");
    ndarray::datatype x(a), y(b); bool eq = a.code == b.code && a.bits == b.bits && a.lanes == b.lanes;
    vf_check((x == y) == eq && (x != y) == !eq, "types equal when every field is"); vf_cover("end");
}
ENTRY e_dev_equality() {
    DLDevice a, b; a.device_type = (DLDeviceType)vf_int("t", 1, 16); b.device_type = (DLDeviceType)vf_int("t", 1, 16); a.device_id = (int32_t)vf_u32("i"); b.device_id = (int32_t)vf_u32("i");
    ndarray::dev x(a), y(b); bool eq = a.device_type == b.device_type && a.device_id == b.device_id;
    vf_check((x == y) == eq && (x != y) == !eq && (x == b) == eq, "devices equal when type and number are"); vf_cover("end");
}
struct DName { const char *n; int type; };
static const DName D[] = {{"cuda", kDLCUDA}, {"cudahost", kDLCUDAHost}, {"cudamanaged", kDLCUDAManaged}};
// a device name, with and without any one- or two-digit device number
ENTRY e_dev_numbered() {
    auto &d = D[vf_pick("name", 0, 2)]; std::string s = d.n; int digits = vf_pick("digits", 0, 2), id = 0;
    if (digits) { s += ':'; for (int i = 0; i < digits; ++i) { int c = vf_pick("digit", 0, digits == 1 || THOROUGH ? 9 : 3); s += (char)('0' + c); id = id * 10 + c; } }
    ndarray::dev x{std::string_view(s)};
    vf_check(x.device_type == d.type, "name parses to the device type it names"); vf_check(x.device_id == id, "device number"); vf_cover("end");
}
ENTRY e_dev_cpu() { ndarray::dev x{std::string_view("cpu")}; vf_check(x == CPU() && x.device_id == 0, "cpu"); vf_cover("end"); }
// every other string of up to 6 characters is rejected
static void dev_string(int n, const char *prefix) {
    char s[16]; int p = strlen(prefix); memcpy(s, prefix, p); for (int i = 0; i < n; ++i) s[p + i] = (char)vf_u8("c"); n += p;
    for (const char *k : {"cpu", "cuda", "cudahost", "cudamanaged"}) if ((int)strlen(k) == n) { bool eq = true; for (int i = 0; i < n; ++i) eq = eq && s[i] == k[i]; vf_assume(!eq); }
    for (auto &k : D) { int m = strlen(k.n); if (n > m) { bool eq = s[m] == ':'; for (int i = 0; i < m; ++i) eq = eq && s[i] == k.n[i]; vf_assume(!eq); } }
    vf_check(throws([&] { ndarray::dev x{std::string_view(s, n)}; }), "unknown device names are rejected"); vf_cover("end");
}
ENTRY e_dev_any0() { dev_string(0, ""); }
ENTRY e_dev_any3() { dev_string(3, ""); }
ENTRY e_dev_any4() { dev_string(4, ""); }
ENTRY e_dev_any6() { dev_string(6, ""); }
ENTRY e_dev_prefix1() { dev_string(1, "cuda"); }
ENTRY e_dev_prefix4() { dev_string(4, "cuda"); }
ENTRY e_dev_prefix_h() { dev_string(1, "cudahost"); }
ENTRY e_dev_prefix_m() { dev_string(1, "cudamanaged"); }
ENTRY e_dev_badnumber() { // something other than a number after the colon
    auto &d = D[vf_pick("name", 0, 2)]; static const char *bad[] = {"", "x", "-", "1x", "1:", " ", "1 "}; std::string s = std::string(d.n) + ":" + bad[vf_pick("bad", 0, 6)];
    vf_check(throws([&] { ndarray::dev x{std::string_view(s)}; }), "malformed device numbers are rejected"); vf_cover("end");
}
