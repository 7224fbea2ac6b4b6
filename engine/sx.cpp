// sx: bounded symbolic execution of LLVM IR with z3.
//   sx MODULE.bc --entry NAME [--out FILE] [-j N] [--max-paths N] [--time S] [--rlimit N] ...
// Every process is one state; a branch that z3 finds feasible both ways forks the process.
// Simulated objects live at real host addresses in reserved regions, so library code the module does not
// define is called natively (with concrete arguments only); symbolic bytes are kept in a shadow map.
#include "sx.hpp"
#include <cmath>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <setjmp.h>
#include <signal.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static const u64 HEAP = 0x100000000000ull, HEAPSZ = 8ull << 30;
static const u64 STK = 0x200000000000ull, STKSZ = 1ull << 30;
static const u64 GLB = 0x300000000000ull, GLBSZ = 1ull << 30;
static const u64 FUN = 0x400000000000ull, FUNSZ = 64ull << 20;

static Shared *S;
static Z3_context Z;
static Z3_solver SOL;
static Z3_model MODEL = nullptr;
static std::vector<Z3_ast> PC;
static Module *M;
static const DataLayout *DL;
static std::string ENTRY, OUTF;
static long MAXPATHS = 200000, RLIMIT = 40000000, MAXCEX = 4, PATHREC = 12, MAXENUM = 600;
static double TLIMIT = 600, T0;
static long MYDEPTH = 0;
static std::string LOGIC;
static std::vector<std::string> TRUST; // library functions that may be given memory with symbolic data
static long BRLIMIT = 0;


static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define INC(f) __sync_fetch_and_add(&S->f, 1)
static u64 hashs(const std::string &s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h | 1; }
static std::string jesc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
    }
    return r;
}
static void emit(const std::string &line) {
    int fd = open(OUTF.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    std::string l = line + "\n";
    if (write(fd, l.data(), l.size()) < 0) {}
    close(fd);
}
static void note(const std::string &kind, const std::string &msg) { // deduplicated
    u64 h = hashs(kind + msg);
    int n = S->nnotes;
    for (int i = 0; i < n && i < 256; i++) if (S->notes[i] == h) return;
    int i = __sync_fetch_and_add(&S->nnotes, 1);
    if (i < 256) { S->notes[i] = h; emit("{\"t\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\"}"); }
}

// ------------------------------------------------------------------ path termination
static std::vector<pid_t> kids;
static bool TOKEN = true; // does this process hold a running token
static void reap_all() {
    if (!kids.empty() && TOKEN) { __sync_fetch_and_sub(&S->running, 1); TOKEN = false; }
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { INC(errors); note("error", "path process died with signal " + std::to_string(WTERMSIG(st))); } }
    kids.clear();
}
static u64 INSTRS = 0, INHERITED = 0; // instructions of this process, and of its path before it
[[noreturn]] static void path_exit(int code = 0) {
    __sync_fetch_and_add(&S->instrs, INSTRS);
    reap_all();
    if (TOKEN) __sync_fetch_and_sub(&S->running, 1);
    fflush(stdout);
    _exit(code);
}
[[noreturn]] static void end_path(const char *kind, const std::string &msg = "");
// The entry is first run on fixed values (WARM > 0), so that whatever the code keeps from one use to the next is there when it is explored.
// Nothing is checked in such a run; it is given up when an assumption or a check fails.
static int WARM = 0; static u64 WARMASKED = 0, WARMCAP = 3000000; struct WarmEnd { bool same; }; // same: the native run ends at the same place
static u64 warm_whole(u64 lo, u64 span) { u64 k = WARMASKED++; return WARM == 1 ? lo : WARM == 2 ? lo + (3 * k + 1) % ((span < 4 ? span : 4) + 1) : lo + (WARM * 7919 + k * 104729 >> 3) % ((span < 7 ? span : 7) + 1); }
static double warm_real(double lo, double hi) { u64 k = WARMASKED++; return lo + (hi - lo) * ((k * 37 + (WARM == 1 ? 21 : 8 * WARM - 8)) % 64) / 64; }

static bool limits() {
    if (S->stop) return true;
    if (now() - T0 > TLIMIT) { S->stop = 1; S->limit_hit = 1; return true; }
    if (S->paths > MAXPATHS) { S->stop = 1; S->limit_hit = 2; return true; }
    return false;
}

static bool fork_path() { // true in the child
    INC(forks);
    if (limits()) { end_path("limit"); }
    INC(paths);
    fflush(stdout);
    bool conc = false;
    int r = S->running;
    if (r < S->maxrun && __sync_bool_compare_and_swap(&S->running, r, r + 1)) conc = true;
    pid_t p = fork();
    if (p < 0) { if (conc) __sync_fetch_and_sub(&S->running, 1); INC(errors); note("error", "fork failed"); end_path("error"); }
    if (p == 0) { kids.clear(); INHERITED += INSTRS; INSTRS = 0; TOKEN = conc; MYDEPTH++; if (!conc) TOKEN = false; return true; }
    if (conc) {
        kids.push_back(p);
        if (kids.size() > 64) { // collect finished children
            std::vector<pid_t> k2;
            for (pid_t q : kids) { int st; if (waitpid(q, &st, WNOHANG) == 0) k2.push_back(q); else if (WIFSIGNALED(st)) { INC(errors); note("error", "path process died"); } }
            kids = k2;
        }
    } else { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { INC(errors); note("error", "path process died with signal " + std::to_string(WTERMSIG(st))); } }
    return false;
}

// ------------------------------------------------------------------ z3 helpers
static Z3_sort zbv(unsigned n) { return Z3_mk_bv_sort(Z, n); }
static Z3_sort zreal() { return Z3_mk_real_sort(Z); }
static Z3_sort zfp(unsigned bits) { return bits == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast zrm() { static Z3_ast r = Z3_mk_fpa_rne(Z); return r; }
static Z3_ast znot(Z3_ast a) { return Z3_mk_not(Z, a); }
static Z3_ast zand(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static Z3_ast zor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(Z, 2, x); }
static Z3_ast zadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(Z, 2, x); }
static Z3_ast zsub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(Z, 2, x); }
static Z3_ast zmul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(Z, 2, x); }
static Z3_ast zbvn(unsigned bits, u64 lo, u64 hi = 0) {
    if (bits <= 64) return Z3_mk_unsigned_int64(Z, bits < 64 ? lo & ((1ull << bits) - 1) : lo, zbv(bits));
    Z3_ast h = Z3_mk_unsigned_int64(Z, bits < 128 ? hi & ((1ull << (bits - 64)) - 1) : hi, zbv(bits - 64)), l = Z3_mk_unsigned_int64(Z, lo, zbv(64));
    return Z3_mk_concat(Z, h, l);
}
static std::string bigpow2(int e) { // 2^e as decimal string
    std::vector<int> d{1};
    for (int i = 0; i < e; i++) { int c = 0; for (auto &x : d) { int v = x * 2 + c; x = v % 10; c = v / 10; } if (c) d.push_back(c); }
    std::string s; for (int i = d.size() - 1; i >= 0; i--) s += '0' + d[i]; return s;
}
static Z3_ast zrat(double d) { // exact rational
    if (d == (double)(int64_t)d && std::fabs(d) < 1e15) return Z3_mk_numeral(Z, std::to_string((int64_t)d).c_str(), zreal());
    int e; double m = frexp(d, &e); int64_t mi = (int64_t)ldexp(m, 53); e -= 53;
    while (mi && !(mi & 1)) { mi /= 2; e++; }
    std::string s = std::to_string(mi);
    if (e < 0) return Z3_mk_numeral(Z, (s + "/" + bigpow2(-e)).c_str(), zreal());
    Z3_ast a = Z3_mk_numeral(Z, s.c_str(), zreal()), b = Z3_mk_numeral(Z, bigpow2(e).c_str(), zreal());
    return Z3_simplify(Z, zmul(a, b));
}
static bool is_true(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_TRUE; }
static bool is_false(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_FALSE; }

static void solver_cfg(Z3_solver s, long rl) {
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)rl);
    Z3_solver_set_params(Z, s, p);
}
static long FASTLIMIT = 400000;
static Z3_solver new_solver(long rl) {
    Z3_solver s = LOGIC.empty() ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, LOGIC.c_str()));
    Z3_solver_inc_ref(Z, s);
    solver_cfg(s, rl);
    return s;
}
// Defined constants (square roots): r >= 0 holds from the start, the definition r*r = x joins the path condition only once r takes
// part in a decision that cannot be settled without it.
struct Def { Z3_ast def, x; bool active; };
static std::unordered_map<Z3_ast, Def> DEFS;
static int DEFS_IDLE = 0;
static void assume(Z3_ast c);
static void mentions(Z3_ast c, std::vector<Z3_ast> &out) { // defined constants in c whose definition is not asserted yet
    if (!DEFS_IDLE || !c) return;
    std::unordered_set<Z3_ast> seen; std::vector<Z3_ast> st{c};
    while (!st.empty()) {
        Z3_ast a = st.back(); st.pop_back();
        if (!seen.insert(a).second || Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap);
        if (!n) { auto it = DEFS.find(a); if (it != DEFS.end() && !it->second.active) out.push_back(a); }
        for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(Z, ap, i));
    }
}
static bool idle_in(Z3_ast c) { std::vector<Z3_ast> v; mentions(c, v); return !v.empty(); }
static void activate(Z3_ast c) {
    std::vector<Z3_ast> v; mentions(c, v);
    while (!v.empty()) {
        Def &d = DEFS[v.back()]; v.pop_back();
        if (d.active) continue;
        d.active = true; DEFS_IDLE--; mentions(d.def, v); assume(d.def);
    }
}
static double QTIME = 10;
// Run f with a time limit: a forked copy runs it and takes over the path when f returns in time; otherwise the copy is killed and
// this process goes on without the result. (Interrupting z3 in place leaves its context unusable.)
template <class F> static bool speculate(double secs, F f) {
    secs = std::max(1.0, std::min(secs, TLIMIT + 5 - (now() - T0)));
    volatile int *flag = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    pid_t p = flag == MAP_FAILED ? -1 : fork();
    if (p < 0) { f(); return true; }
    if (p == 0) {
        kids.clear(); INHERITED += INSTRS; INSTRS = 0;
        f();
        if (!__sync_bool_compare_and_swap(flag, 0, 1)) _exit(0);
        munmap((void *)flag, 4096);
        return true;
    }
    double end = now() + secs; int st = 0; bool dead = false; long nap = 100;
    while (!*flag && now() < end) { if (waitpid(p, &st, WNOHANG) == p) { dead = true; break; } usleep(nap); nap = std::min(nap * 2, 5000l); }
    if (!dead && !__sync_bool_compare_and_swap(flag, 0, 2)) { // the copy goes on
        TOKEN = false; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { INC(errors); note("error", "path process died with signal " + std::to_string(WTERMSIG(st))); }
        path_exit();
    }
    if (!dead) { kill(p, SIGKILL); waitpid(p, &st, 0); }
    munmap((void *)flag, 4096);
    return false;
}
static Z3_lbool check_once(Z3_ast c, Z3_model *mo, bool retry) { // sat(PC and c)
    INC(queries);
    double t = now();
    Z3_solver_push(Z, SOL);
    if (c) Z3_solver_assert(Z, SOL, c);
    Z3_lbool r = Z3_solver_check(Z, SOL);
    if (r == Z3_L_TRUE && mo) { *mo = Z3_solver_get_model(Z, SOL); Z3_model_inc_ref(Z, *mo); }
    Z3_solver_pop(Z, SOL, 1);
    if (r == Z3_L_UNDEF && retry) { // once more with fresh, non-incremental strategies and a larger budget
        Z3_lbool r2 = Z3_L_UNDEF; Z3_model m2 = nullptr;
        if (speculate(QTIME, [&] {
            for (int att = 0; att < 3 && r2 == Z3_L_UNDEF; att++) {
                Z3_solver s;
                if (att == 0) s = new_solver(RLIMIT); else if (att == 1) { s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s); }
                else { Z3_tactic t1 = Z3_mk_tactic(Z, "simplify"), t2 = Z3_mk_tactic(Z, "qfnra-nlsat"); Z3_tactic_inc_ref(Z, t1); Z3_tactic_inc_ref(Z, t2);
                       Z3_tactic t3 = Z3_tactic_and_then(Z, t1, t2); Z3_tactic_inc_ref(Z, t3); s = Z3_mk_solver_from_tactic(Z, t3); Z3_solver_inc_ref(Z, s); }
                solver_cfg(s, RLIMIT);
                for (auto p : PC) Z3_solver_assert(Z, s, p);
                if (c) Z3_solver_assert(Z, s, c);
                r2 = Z3_solver_check(Z, s);
                if (r2 == Z3_L_TRUE && mo) { m2 = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m2); }
                Z3_solver_dec_ref(Z, s);
            }
        })) { r = r2; if (mo && r == Z3_L_TRUE) *mo = m2; }
    }
    __sync_fetch_and_add(&S->solver_us, (long)((now() - t) * 1e6));
    if (r == Z3_L_TRUE) INC(qsat); else if (r == Z3_L_FALSE) INC(qunsat); else INC(qunknown);
    return r;
}
// With definitions of square roots asserted, a query can take z3 beyond any of its own limits: these run under a time limit of ours.
static Z3_lbool check_limited(Z3_ast c, Z3_model *mo) {
    if ((int)DEFS.size() <= DEFS_IDLE) return check_once(c, mo, true);
    Z3_lbool r = Z3_L_UNDEF; Z3_model m = nullptr;
    if (!speculate(QTIME, [&] { r = check_once(c, mo ? &m : nullptr, true); })) { INC(qunknown); return Z3_L_UNDEF; }
    if (mo && r == Z3_L_TRUE) *mo = m;
    return r;
}
static Z3_lbool check_with(Z3_ast c, Z3_model *mo) {
    if (!idle_in(c)) return check_limited(c, mo);
    Z3_lbool r = check_once(c, mo, false);
    if (r == Z3_L_FALSE) return r;
    activate(c);
    return check_limited(c, mo);
}
static void assume(Z3_ast c) {
    if (is_true(c)) return;
    activate(c);
    PC.push_back(c); Z3_solver_assert(Z, SOL, c);
    if (MODEL) { Z3_ast v; if (!Z3_model_eval(Z, MODEL, c, true, &v) || !is_true(v)) MODEL = nullptr; }
}
static bool ensure_model() { // false: path condition is infeasible (or undecided)
    if (MODEL) return true;
    Z3_model m; Z3_lbool r = check_with(nullptr, &m);
    if (r == Z3_L_TRUE) { MODEL = m; return true; }
    if (r == Z3_L_FALSE) end_path("infeasible");
    return false;
}
static int model_bool(Z3_ast c) { // value of c in current model, -1 if no model
    if (!MODEL || idle_in(c)) return -1;
    Z3_ast v; if (!Z3_model_eval(Z, MODEL, c, true, &v)) return -1;
    if (is_true(v)) return 1; if (is_false(v)) return 0;
    v = Z3_simplify(Z, v); if (is_true(v)) return 1; if (is_false(v)) return 0;
    return -1;
}
// decide a symbolic condition, forking if both sides are feasible
static bool decide(Z3_ast c) {
    c = Z3_simplify(Z, c);
    if (is_true(c)) return true;
    if (is_false(c)) return false;
    INC(branches);
    int mv = model_bool(c);
    bool ft, ff;
    Z3_model mt = nullptr, mf = nullptr;
    if (mv == 1) { ft = true; mt = MODEL; } else { Z3_lbool r = check_with(c, &mt); ft = r != Z3_L_FALSE; if (r != Z3_L_TRUE) mt = nullptr; }
    if (mv == 0) { ff = true; mf = MODEL; } else { Z3_lbool r = check_with(znot(c), &mf); ff = r != Z3_L_FALSE; if (r != Z3_L_TRUE) mf = nullptr; }
    if (!ft && !ff) end_path("infeasible");
    if (ft && ff) {
        if (fork_path()) { MODEL = mf; assume(znot(c)); return false; }
        MODEL = mt; assume(c); return true;
    }
    // implied by the path condition: nothing to add
    if (ft) { MODEL = mt ? mt : MODEL; if (!idle_in(c)) assume(c); return true; }
    MODEL = mf ? mf : MODEL; if (!idle_in(c)) assume(znot(c)); return false;
}

// ------------------------------------------------------------------ inputs, counterexamples
struct Input { std::string name; char type; Z3_ast e; unsigned bits; }; // type i int, r real, f fp, p picked
static std::vector<Input> INPUTS;
struct Observe { std::string label; Val v; };
static std::vector<Observe> OBS;

static double num_double(Z3_ast v) { // numeral -> double
    v = Z3_simplify(Z, v);
    if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) {
        std::string s = Z3_get_numeral_string(Z, v);
        size_t p = s.find('/');
        if (p == std::string::npos) return strtod(s.c_str(), nullptr);
        std::string a = s.substr(0, p), b = s.substr(p + 1);
        // long rationals: scale down together
        if (a.size() < 300 && b.size() < 300) return (double)(strtold(a.c_str(), nullptr) / strtold(b.c_str(), nullptr));
        return (double)(strtold(a.c_str(), nullptr) / strtold(b.c_str(), nullptr));
    }
    if (Z3_is_algebraic_number(Z, v)) {
        Z3_ast l = Z3_get_algebraic_number_lower(Z, v, 20);
        return num_double(l);
    }
    return NAN;
}
static u64 fpbits(Z3_model m, Z3_ast e, unsigned bits) {
    Z3_ast v; Z3_model_eval(Z, m, Z3_mk_fpa_to_ieee_bv(Z, e), true, &v);
    v = Z3_simplify(Z, v); uint64_t u = 0;
    if (!Z3_get_numeral_uint64(Z, v, &u)) u = bits == 32 ? 0x7fc00000 : 0x7ff8000000000000ull;
    return u;
}
static std::string inputs_json(Z3_model m) {
    std::string r = "[";
    for (auto &i : INPUTS) {
        char buf[128]; Z3_ast v;
        if (i.type == 'i' || i.type == 'p') {
            Z3_model_eval(Z, m, i.e, true, &v); uint64_t u = 0; Z3_get_numeral_uint64(Z, Z3_simplify(Z, v), &u);
            snprintf(buf, sizeof buf, "\"%lld\"", (long long)(int64_t)u);
        } else if (i.type == 'r') {
            Z3_model_eval(Z, m, i.e, true, &v); double d = num_double(v);
            snprintf(buf, sizeof buf, "\"%.17g\"", d);
        } else {
            u64 u = fpbits(m, i.e, i.bits); double d; float f;
            if (i.bits == 32) { uint32_t w = u; memcpy(&f, &w, 4); d = f; } else memcpy(&d, &u, 8);
            snprintf(buf, sizeof buf, "\"%.17g\"", d);
        }
        r += (r.size() > 1 ? "," : "") + std::string("[\"") + i.name + "\",\"" + i.type + "\"," + buf + "]";
    }
    return r + "]";
}
static std::string obs_json(Z3_model m) {
    std::string r = "[";
    for (auto &o : OBS) {
        char buf[128]; double d = NAN; Z3_ast v;
        if (o.v.k == CONC) { /* always a floating-point argument */ if (o.v.bits == 32) { float f; uint32_t w = o.v.lo; memcpy(&f, &w, 4); d = f; } else memcpy(&d, &o.v.lo, 8); }
        else if (o.v.k == SYM && o.v.sk == SREAL) { if (Z3_model_eval(Z, m, o.v.e, true, &v)) d = num_double(v); }
        else if (o.v.k == SYM && o.v.sk == SFP) { u64 u = fpbits(m, o.v.e, o.v.bits); if (o.v.bits == 32) { float f; uint32_t w = u; memcpy(&f, &w, 4); d = f; } else memcpy(&d, &u, 8); }
        else if (o.v.k == SYM && o.v.sk == SBV) { Z3_model_eval(Z, m, o.v.e, true, &v); uint64_t u = 0; Z3_get_numeral_uint64(Z, Z3_simplify(Z, v), &u); d = (double)(int64_t)u; }
        if (std::isfinite(d)) snprintf(buf, sizeof buf, "%.12g", d); else snprintf(buf, sizeof buf, "null");
        r += (r.size() > 1 ? "," : "") + std::string("[\"") + o.label + "\"," + buf + "]";
    }
    return r + "]";
}
static bool want_cex(const std::string &label) {
    u64 h = hashs(label);
    for (int i = 0; i < S->nlabels && i < 1024; i++) if (S->labels[i] == h) return __sync_fetch_and_add(&S->label_cnt[i], 1) < MAXCEX;
    int i = __sync_fetch_and_add(&S->nlabels, 1);
    if (i >= 1024) return false;
    S->labels[i] = h; S->label_cnt[i] = 1; return true;
}
// prefer models whose real inputs lie on a coarse grid: they survive conversion to floating point exactly
static Z3_model nice_model(Z3_ast extra, Z3_model dflt) {
    std::vector<Z3_ast> g;
    for (auto &i : INPUTS) if (i.type == 'r') g.push_back(Z3_mk_is_int(Z, zmul(i.e, zrat(64))));
    if (g.empty()) return dflt;
    Z3_model m = dflt;
    speculate(1.5, [&] {
        Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); solver_cfg(s, 1000000);
        for (auto p : PC) Z3_solver_assert(Z, s, p);
        if (extra) Z3_solver_assert(Z, s, extra);
        for (auto x : g) Z3_solver_assert(Z, s, x);
        if (Z3_solver_check(Z, s) == Z3_L_TRUE) { m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m); }
        Z3_solver_dec_ref(Z, s);
    });
    return m;
}
static std::string here();
static void cex(const std::string &kind, const std::string &label, Z3_ast extra, Z3_model m, Z3_ast strong = nullptr) {
    std::string key = kind + ":" + label;
    INC(cex);
    if (!want_cex(key)) return;
    Z3_model best = m;
    if (strong) { Z3_model ms = nullptr; if (check_with(strong, &ms) == Z3_L_TRUE) best = nice_model(strong, ms); else best = nice_model(extra, m); }
    else best = nice_model(extra, m);
    emit("{\"t\":\"cex\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"where\":\"" + jesc(here()) + "\",\"inputs\":" + inputs_json(best) + "}");
}
static void cex_here(const std::string &kind, const std::string &label) { // on every value of this path
    if (WARM) throw WarmEnd{kind == "check"};
    if (!MODEL) { Z3_model m; Z3_lbool r = check_with(nullptr, &m); if (r == Z3_L_FALSE) end_path("infeasible"); if (r == Z3_L_TRUE) MODEL = m; }
    if (MODEL) cex(kind, label, nullptr, MODEL);
    else { INC(checks_undecided); note("undecided", "reachability of " + label); }
}
// A path that cannot be followed any further is completed by a concrete run from one model of its condition: that run can only add a
// violation (check.py decides how much of a difference it takes), the path stays counted as not explored.
static void finish_concretely(const std::string &why, const char *kind = "concrete") {
    static bool once = false; if (once) return; once = true;
    long n = __sync_add_and_fetch(&S->concrete, 1); if (n > 12 && (n & (n - 1))) return;
    if (!MODEL) { Z3_model m; if (check_with(nullptr, &m) == Z3_L_TRUE) MODEL = m; }
    if (MODEL) { Z3_model m = nice_model(nullptr, MODEL); emit("{\"t\":\"cex\",\"kind\":\"" + std::string(kind) + "\",\"label\":\"completed concretely\",\"where\":\"" + jesc(here()) + "\",\"why\":\"" + jesc(why) + "\",\"inputs\":" + inputs_json(m) + "}"); }
}
static void end_path(const char *kind, const std::string &msg) {
    std::string k = kind;
    if (WARM) throw WarmEnd{k == "infeasible"};
    if (k == "done") {
        INC(done);
        if (__sync_fetch_and_add(&S->pathrecs, 1) < PATHREC) {
            if (!MODEL) { Z3_model m; if (check_with(nullptr, &m) == Z3_L_TRUE) MODEL = m; }
            if (MODEL) { Z3_model m = nice_model(nullptr, MODEL); emit("{\"t\":\"path\",\"inputs\":" + inputs_json(m) + ",\"obs\":" + obs_json(m) + "}"); }
        }
    } else if (k == "infeasible") INC(infeasible);
    else if (k == "excluded") { INC(excluded); note("excluded", msg); }
    else if (k == "unsupported") { INC(unsupported); note("unsupported", msg + " at " + here()); finish_concretely(msg); }
    else if (k == "limit" && INSTRS + INHERITED > 5000000) finish_concretely("still going at the time limit", "endless");
    else if (k == "error") { INC(errors); note("error", msg + " at " + here()); }
    path_exit();
}
#define UNSUP(msg) end_path("unsupported", msg)

// ------------------------------------------------------------------ values
static Val vc(unsigned bits, u64 lo, u64 hi = 0) {
    Val v; v.k = CONC; v.bits = bits;
    if (bits < 64) lo &= (1ull << bits) - 1;
    v.lo = lo; v.hi = bits > 64 ? (bits < 128 ? hi & ((1ull << (bits - 64)) - 1) : hi) : 0; return v;
}
static Val vundef(unsigned bits) { Val v; v.k = UNDEF; v.bits = bits; return v; }
static Val vs(SK sk, unsigned bits, Z3_ast e) { Val v; v.k = SYM; v.sk = sk; v.bits = bits; v.e = e; return v; }
static Val vdouble(double d) { u64 u; memcpy(&u, &d, 8); return vc(64, u); }
static Val vfloat(float d) { uint32_t u; memcpy(&u, &d, 4); return vc(32, u); }
static double fval(const Val &v) { if (v.bits == 32) { float f; uint32_t u = v.lo; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.lo, 8); return d; }
static long double ldval(const Val &v) { long double x = 0; memcpy(&x, &v.lo, 8); memcpy((char *)&x + 8, &v.hi, 2); return x; }
static Val vld(long double x) { u64 lo = 0, hi = 0; memcpy(&lo, &x, 8); memcpy(&hi, (char *)&x + 8, 2); return vc(80, lo, hi); }
static Val simp_bv(SK sk, unsigned bits, Z3_ast e) { // small simplification; recover concrete values
    e = Z3_simplify(Z, e);
    if (sk == SBOOL) { if (is_true(e)) return vc(1, 1); if (is_false(e)) return vc(1, 0); return vs(SBOOL, 1, e); }
    if (sk == SBV && bits <= 64 && Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) { uint64_t u; if (Z3_get_numeral_uint64(Z, e, &u)) return vc(bits, u); }
    return vs(sk, bits, e);
}
static Val norm_bytes(std::vector<Val> &b);
static Z3_ast asBV(const Val &v) {
    switch (v.k) {
    case CONC: return zbvn(v.bits, v.lo, v.hi);
    case SYM:
        if (v.sk == SBV) return v.e;
        if (v.sk == SBOOL) return Z3_mk_ite(Z, v.e, zbvn(v.bits, 1), zbvn(v.bits, 0));
        if (v.sk == SFP) return Z3_mk_fpa_to_ieee_bv(Z, v.e);
        UNSUP("integer use of the bits of a real-abstracted float");
    case BLOB: UNSUP("integer use of mixed bytes");
    default: UNSUP("integer use of undefined value");
    }
}
static Z3_ast asBool(const Val &v) {
    if (v.k == CONC) return (v.lo & 1) ? Z3_mk_true(Z) : Z3_mk_false(Z);
    if (v.k == SYM && v.sk == SBOOL) return v.e;
    if (v.k == SYM && v.sk == SBV) { return Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, v.e), zbvn(1, 1)); }
    UNSUP("boolean use of non-boolean");
}
static Z3_ast asReal(const Val &v) {
    if (v.k == CONC) { double d = v.bits == 80 ? (double)ldval(v) : fval(v); if (!std::isfinite(d)) UNSUP("non-finite constant mixed with a real-abstracted float"); return zrat(d); }
    if (v.k == SYM && v.sk == SREAL) return v.e;
    UNSUP("real use of a non-real value");
}
static Z3_ast asFP(const Val &v) {
    if (v.k == CONC) { return v.bits == 32 ? Z3_mk_fpa_numeral_float(Z, (float)fval(v), zfp(32)) : Z3_mk_fpa_numeral_double(Z, fval(v), zfp(64)); }
    if (v.k == SYM && v.sk == SFP) return v.e;
    if (v.k == SYM && v.sk == SBV) return Z3_mk_fpa_to_fp_bv(Z, v.e, zfp(v.bits));
    if (v.k == SYM && v.sk == SREAL) UNSUP("real and fp mixed");
    UNSUP("fp use of an undefined value");
}
static bool isReal(const Val &v) { return v.k == SYM && v.sk == SREAL; }
static unsigned tbits(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return t->getIntegerBitWidth();
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned nelem(Type *t) {
    if (auto s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type *elemTy(Type *t, unsigned i) {
    if (auto s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 elemOff(Type *t, unsigned i) {
    if (auto s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    return i * DL->getTypeAllocSize(elemTy(t, i));
}
static Val undefOf(Type *t) {
    if (isAgg(t)) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(undefOf(elemTy(t, i))); return v; }
    if (t->isVoidTy()) return Val();
    return vundef(tbits(t));
}
static Val zeroOf(Type *t) {
    if (isAgg(t)) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(zeroOf(elemTy(t, i))); return v; }
    return vc(tbits(t), 0);
}

// ------------------------------------------------------------------ memory
static std::map<u64, Obj *> OBJ;
static Obj *lastObj = nullptr;
static std::unordered_map<u64, SymByte> CELL;
static u64 heapTop = HEAP + 4096, stkTop = STK + 4096, glbTop = GLB + 4096, nativeSym = 0;
static long liveHeap = 0;
static Obj *find_obj(u64 a) {
    if (lastObj && a >= lastObj->base && a < lastObj->base + lastObj->size) return lastObj;
    auto it = OBJ.upper_bound(a);
    if (it == OBJ.begin()) return nullptr;
    --it;
    if (a < it->second->base + it->second->size) return lastObj = it->second;
    return nullptr;
}
static bool in_arena(u64 a) { return (a >= HEAP && a < HEAP + HEAPSZ) || (a >= STK && a < STK + STKSZ) || (a >= GLB && a < GLB + GLBSZ) || (a >= FUN && a < FUN + FUNSZ); }
static Obj *new_obj(u64 &top, u64 size, u64 align, char kind, bool undef) {
    if (align < 16) align = 16;
    top = (top + align - 1) & ~(align - 1);
    Obj *o = new Obj; o->base = top; o->size = size ? size : 1; o->kind = kind;
    if (undef && size <= (64u << 20)) o->sh.assign(o->size, 1);
    if (!size) o->size = 0;
    top += size + 64 + (size > 4096 ? 256 : 0);
    OBJ[o->base] = o;
    return o;
}
static std::string stackstr();
[[noreturn]] static void mem_error(const std::string &what) { cex_here("memory", what); end_path("done-error"); }
static Obj *heap_alloc(u64 size, u64 align, bool zero) {
    if (size > (1ull << 30)) { mem_error("allocation of an absurd size"); }
    if (heapTop + size > HEAP + HEAPSZ - (1 << 20)) UNSUP("simulated heap exhausted");
    Obj *o = new_obj(heapTop, size, align, 'h', !zero);
    liveHeap++;
    return o;
}
static void drop_cells(Obj *o, u64 a, u64 n) {
    if (o && !o->sh.empty()) {
        if (!o->nsym) return;
        for (u64 i = 0; i < n; i++) { u8 &s = o->sh[a - o->base + i]; if (s == 2) { CELL.erase(a + i); o->nsym--; s = 0; } }
    } else {
        u64 &cnt = o ? o->nsym : nativeSym;
        if (!cnt) return;
        for (u64 i = 0; i < n; i++) if (CELL.erase(a + i)) cnt--;
    }
}
static void obj_free(Obj *o) {
    drop_cells(o, o->base, o->size);
    OBJ.erase(o->base);
    if (lastObj == o) lastObj = nullptr;
    delete o;
}
static std::vector<std::pair<u64, u64>> MAPS;
static bool mapped(u64 a, u64 n) {
    for (int t = 0; t < 2; t++) {
        for (auto &m : MAPS) if (a >= m.first && a + n <= m.second) return true;
        if (t == 0) {
            MAPS.clear(); FILE *f = fopen("/proc/self/maps", "r"); char l[512];
            while (fgets(l, 512, f)) { unsigned long x, y; char p[8]; if (sscanf(l, "%lx-%lx %4s", &x, &y, p) == 3 && p[0] == 'r') {
                if (!MAPS.empty() && MAPS.back().second == x) MAPS.back().second = y; else MAPS.push_back({x, y}); } }
            fclose(f);
        }
    }
    return false;
}
static Obj *access(u64 a, u64 n, bool write, const char *what) {
    if (n == 0) return find_obj(a);
    Obj *o = find_obj(a);
    if (o) {
        if (a + n > o->base + o->size) mem_error(std::string(write ? "out-of-bounds write" : "out-of-bounds read"));
        if (write && o->kind == 'c') mem_error("write to constant memory");
        return o;
    }
    if (in_arena(a)) mem_error(std::string(write ? "out-of-bounds or dangling write" : "out-of-bounds or dangling read"));
    if (a < 65536) mem_error(write ? "null-pointer write" : "null-pointer read");
    if (!mapped(a, n)) mem_error(write ? "wild write" : "wild read");
    return nullptr;
}
static Val byte_at(Obj *o, u64 a) {
    if (o && !o->sh.empty()) {
        u8 s = o->sh[a - o->base];
        if (s == 1) return vundef(8);
        if (s == 0) return vc(8, *(u8 *)a);
    } else if (!(o ? o->nsym : nativeSym)) return vc(8, *(u8 *)a);
    auto it = CELL.find(a);
    if (it == CELL.end()) return vc(8, *(u8 *)a);
    Val v; v.k = SBYTE; v.sk = it->second.sk; v.bits = it->second.bits; v.e = it->second.e; v.lo = it->second.idx; return v;
}
static void put_byte(Obj *o, u64 a, const Val &b) {
    if (o && !o->sh.empty()) {
        u8 &s = o->sh[a - o->base];
        if (s == 2) { CELL.erase(a); o->nsym--; s = 0; }
        if (b.k == CONC) { *(u8 *)a = b.lo; s = 0; }
        else if (b.k == UNDEF) s = 1;
        else { CELL[a] = {b.sk, b.bits, (u8)b.lo, b.e}; s = 2; o->nsym++; }
    } else {
        u64 &cnt = o ? o->nsym : nativeSym;
        if (cnt && CELL.erase(a)) cnt--;
        if (b.k == CONC) *(u8 *)a = b.lo;
        else if (b.k == UNDEF) *(u8 *)a = 0xAA;
        else { CELL[a] = {b.sk, b.bits, (u8)b.lo, b.e}; cnt++; }
    }
}
static Val norm_bytes(std::vector<Val> &b) {
    unsigned n = b.size();
    bool allc = true, allu = true;
    for (auto &x : b) { if (x.k != CONC) allc = false; if (x.k != UNDEF) allu = false; }
    if (allu) return vundef(n * 8);
    if (allc && n <= 16) { u64 lo = 0, hi = 0; for (unsigned i = 0; i < n; i++) { if (i < 8) lo |= b[i].lo << (8 * i); else hi |= b[i].lo << (8 * (i - 8)); } return vc(n * 8, lo, hi); }
    if (b[0].k == SBYTE && b[0].bits == n * 8) {
        bool ok = true;
        for (unsigned i = 0; i < n; i++) if (b[i].k != SBYTE || b[i].e != b[0].e || b[i].lo != i || b[i].sk != b[0].sk) ok = false;
        if (ok) return vs(b[0].sk, n * 8, b[0].e);
    }
    bool bvok = true;
    for (auto &x : b) if (!(x.k == CONC || (x.k == SBYTE && x.sk != SREAL))) bvok = false;
    if (bvok) {
        Z3_ast r = nullptr;
        for (int i = n - 1; i >= 0; i--) {
            Z3_ast p;
            if (b[i].k == CONC) p = zbvn(8, b[i].lo);
            else { Z3_ast w = asBV(vs(b[i].sk, b[i].bits, b[i].e)); p = b[i].bits == 8 ? w : Z3_mk_extract(Z, b[i].lo * 8 + 7, b[i].lo * 8, w); }
            r = r ? Z3_mk_concat(Z, r, p) : p;
        }
        return simp_bv(SBV, n * 8, r);
    }
    Val v; v.k = BLOB; v.bits = n * 8; v.agg = std::make_shared<std::vector<Val>>(b); return v;
}
static std::vector<Val> to_bytes(const Val &v, unsigned n) {
    std::vector<Val> r;
    for (unsigned i = 0; i < n; i++) {
        switch (v.k) {
        case CONC: r.push_back(vc(8, i < 8 ? v.lo >> (8 * i) : (i < 16 ? v.hi >> (8 * (i - 8)) : 0))); break;
        case UNDEF: r.push_back(vundef(8)); break;
        case BLOB: r.push_back((*v.agg)[i]); break;
        case SYM: { Val b; b.k = SBYTE; b.sk = v.sk; b.bits = v.bits; b.e = v.e; b.lo = i;
            if (v.sk == SBOOL || v.bits % 8) { b.sk = SBV; b.bits = n * 8; b.e = v.bits == n * 8 && v.sk == SBV ? v.e : (v.sk == SBOOL ? Z3_mk_ite(Z, v.e, zbvn(n * 8, 1), zbvn(n * 8, 0)) : Z3_mk_zero_ext(Z, n * 8 - v.bits, v.e)); }
            r.push_back(b); break; }
        default: UNSUP("store of odd value");
        }
    }
    return r;
}
static Val trunc_val(const Val &v, unsigned bits);
static Val load(u64 a, Type *t) {
    if (isAgg(t)) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>();
        if (auto vt = dyn_cast<FixedVectorType>(t); vt && vt->getElementType()->isIntegerTy(1)) UNSUP("i1 vector in memory");
        for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(load(a + elemOff(t, i), elemTy(t, i))); return v; }
    unsigned bits = tbits(t), n = t->isX86_FP80Ty() ? 10 : (bits + 7) / 8;
    Obj *o = access(a, n, false, "load");
    Val r;
    bool fast = n <= 8 && (o ? (o->sh.empty() ? !o->nsym : false) : !nativeSym);
    if (!fast && n <= 8 && o && !o->sh.empty()) { fast = true; u8 *s = &o->sh[a - o->base]; for (unsigned i = 0; i < n; i++) if (s[i]) { fast = false; break; } }
    if (fast) { u64 x = 0; memcpy(&x, (void *)a, n); r = vc(n * 8, x); }
    else { std::vector<Val> b; for (unsigned i = 0; i < n; i++) b.push_back(byte_at(o, a + i)); r = norm_bytes(b); }
    if (bits != n * 8 && bits != 80) r = trunc_val(r, bits);
    return r;
}
static void store(u64 a, const Val &v, Type *t) {
    if (isAgg(t)) { for (unsigned i = 0; i < nelem(t); i++) store(a + elemOff(t, i), (*v.agg)[i], elemTy(t, i)); return; }
    unsigned bits = tbits(t), n = t->isX86_FP80Ty() ? 10 : (bits + 7) / 8;
    Obj *o = access(a, n, true, "store");
    if (v.k == CONC && n <= 8 && !(o ? o->nsym : nativeSym)) {
        memcpy((void *)a, &v.lo, n);
        if (o && !o->sh.empty()) memset(&o->sh[a - o->base], 0, n);
        return;
    }
    auto b = to_bytes(v, n);
    for (unsigned i = 0; i < n; i++) put_byte(o, a + i, b[i]);
}
static void mem_copy(u64 d, u64 s, u64 n) {
    if (!n || d == s) return;
    Obj *os = access(s, n, false, "memcpy"), *od = access(d, n, true, "memcpy");
    bool plain = (os ? (os->sh.empty() && !os->nsym) : !nativeSym) && (od ? od->sh.empty() && !od->nsym : !nativeSym);
    if (plain) { memmove((void *)d, (void *)s, n); return; }
    std::vector<Val> b; b.reserve(n);
    for (u64 i = 0; i < n; i++) b.push_back(byte_at(os, s + i));
    for (u64 i = 0; i < n; i++) put_byte(od, d + i, b[i]);
}
static void mem_set(u64 d, const Val &v, u64 n) {
    if (!n) return;
    Obj *o = access(d, n, true, "memset");
    Val b = to_bytes(v, 1)[0];
    for (u64 i = 0; i < n; i++) put_byte(o, d + i, b);
}
#include "exec.inc"
