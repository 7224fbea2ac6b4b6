// Command lines whose numbers are symbolic: the text "@k" stands for the number given by arg() as the k-th.
#pragma once
#include "fil.hpp"
#include <cstdlib>
#include <string>
#include <vector>
struct Number { bool real = false; double f = 0; int64_t i = 0; };
static std::vector<Number> numbers_given; static std::vector<std::string> line;
static bool token(const char *s, Number &n) { if (s[0] != '@') return false; int k = 0; for (++s; *s; ++s) k = 10 * k + *s - '0'; n = numbers_given[k]; return true; }
static double decimal(const char *s) { double v = 0, w = 1; bool neg = *s == '-'; if (*s == '-' || *s == '+') ++s; for (; *s >= '0' && *s <= '9'; ++s) v = 10 * v + (*s - '0'); if (*s == '.') for (++s; *s >= '0' && *s <= '9'; ++s) v += (w /= 10) * (*s - '0'); return neg ? -v : v; }
extern "C" {
__attribute__((used)) double strtod(const char *s, char **e) noexcept { Number n; if (e) *e = (char *)s + strlen(s); return token(s, n) ? (n.real ? n.f : (double)n.i) : decimal(s); }
__attribute__((used)) float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
__attribute__((used)) long long strtoll(const char *s, char **e, int) noexcept { Number n; if (e) *e = (char *)s + strlen(s); if (!token(s, n)) return (long long)decimal(s); if (n.real) vf_fail("a fraction is read as an integer"); return n.i; }
__attribute__((used)) unsigned long long strtoull(const char *s, char **e, int b) noexcept { return (unsigned long long)strtoll(s, e, b); }
__attribute__((used)) long strtol(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
__attribute__((used)) unsigned long strtoul(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
}
static std::string given(Number n) { numbers_given.push_back(n); return "@" + std::to_string(numbers_given.size() - 1); }
static std::string given_int(int64_t v) { Number n; n.i = v; return given(n); }
static std::string given_real(double v) { Number n; n.real = true; n.f = v; return given(n); }
static int run(int (*program)(int, char **), const char *name) { std::vector<char *> a; line.insert(line.begin(), name); for (auto &s : line) a.push_back(const_cast<char *>(s.c_str())); a.push_back(nullptr); return program((int)line.size(), a.data()); }
