// A model of the text formatting library: text is copied, every number becomes the mark \x01<k>\x02 and is kept, exactly
// as it was given, in fakefmt::numbers[k] together with its format specification.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <limits>
#include <ostream>
#include <sstream>
#include <system_error>
#include <tuple>
#include <utility>
#include <cstdio>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <cstring>
#include <climits>
namespace fakefmt {
struct format_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct number { bool is_float = false; double f = 0; int64_t i = 0; std::string spec; };
inline std::vector<number> numbers;
struct arg { int kind = 0; double f = 0; int64_t i = 0; std::string s; }; // 0 other, 1 integer, 2 floating, 3 text
inline std::string mark(const arg &a, const std::string &spec) {
    if (a.kind == 3) return a.s;
    if (a.kind == 0) return "{...}";
    number n; n.is_float = a.kind == 2; n.f = a.f; n.i = a.i; n.spec = spec; numbers.push_back(n); return "\x01" + std::to_string(numbers.size() - 1) + "\x02";
}
template <class T> arg to_arg(const T &v) {
    arg a; using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, char>) { a.kind = 3; if (v == '+') a.s = "+"; else if (v == '-') a.s = "-"; else a.s = std::string(1, v); }
    else if constexpr (std::is_same_v<D, bool>) { a.kind = 3; a.s = v ? "true" : "false"; }
    else if constexpr (std::is_integral_v<D>) { a.kind = 1; a.i = (int64_t)v; }
    else if constexpr (std::is_floating_point_v<D>) { a.kind = 2; a.f = v; }
    else if constexpr (std::is_convertible_v<const T &, std::string_view>) { a.kind = 3; a.s = std::string(std::string_view(v)); }
    return a;
}
inline std::string vformat(std::string_view f, const std::vector<arg> &args) {
    std::string out; size_t next = 0;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] == '}') { if (i + 1 >= f.size() || f[i + 1] != '}') throw format_error("unmatched '}' in format string"); ++i; out += '}'; continue; }
        if (f[i] != '{') { out += f[i]; continue; }
        if (i + 1 < f.size() && f[i + 1] == '{') { ++i; out += '{'; continue; }
        size_t e = f.find('}', i); if (e == std::string_view::npos) throw format_error("invalid format string");
        auto inner = f.substr(i + 1, e - i - 1); auto colon = inner.find(':'); auto id = inner.substr(0, colon); std::string spec = colon == std::string_view::npos ? "" : std::string(inner.substr(colon + 1));
        size_t k; if (id.empty()) k = next++; else { k = 0; for (char c : id) { if (c < '0' || c > '9') throw format_error("argument not found"); k = 10 * k + (c - '0'); } }
        if (k >= args.size()) throw format_error("argument not found");
        out += mark(args[k], spec); i = e;
    }
    return out;
}
template <class... A> std::string format(std::string_view f, const A &...a) { std::vector<arg> v; (v.push_back(to_arg(a)), ...); return vformat(f, v); }
template <class O, class... A> O format_to(O out, std::string_view f, const A &...a) { for (char c : format(f, a...)) *out++ = c; return out; }
template <class... A> void print(std::string_view f, const A &...a) { size_t n = numbers.size(); format(f, a...); numbers.resize(n); }
template <class... A> void print(std::FILE *, std::string_view f, const A &...a) { print(f, a...); }
template <class T> std::string to_string(const T &v) { return format("{}", v); }
template <class I> struct joined { I b, e; };
template <class I> std::string join_(I b, I e, std::string_view sep) { std::string s; for (bool first = true; b != e; ++b, first = false) { if (!first) s += sep; s += format("{}", *b); } return s; }
template <class R> std::string join(const R &r, std::string_view sep) { return join_(std::begin(r), std::end(r), sep); }
template <class I> std::string join(I b, I e, std::string_view sep) { return join_(b, e, sep); }
template <class T> std::string ptr(T) { return "{...}"; }
struct memory_buffer : std::string { using std::string::string; };
inline std::string to_string(const memory_buffer &b) { return b; }
}
namespace fmt = fakefmt;
