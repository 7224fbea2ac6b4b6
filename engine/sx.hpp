// sx: bounded symbolic execution of LLVM IR with z3.  See ../DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint8_t u8;

enum VK : u8 { UNDEF, CONC, SYM, AGG, BLOB, SBYTE };
enum SK : u8 { SBOOL, SBV, SREAL, SFP };

struct Val {
    VK k = UNDEF;
    SK sk = SBV;
    uint32_t bits = 0;
    u64 lo = 0, hi = 0; // CONC: value; SBYTE: lo = byte index inside e
    Z3_ast e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    bool conc() const { return k == CONC; }
    bool sym() const { return k == SYM; }
};

struct Obj {
    u64 base, size;
    char kind; // h heap, s stack, g global, c constant global
    bool alive = true;
    std::vector<u8> sh; // per byte: 0 initialised concrete, 1 undef, 2 symbolic; empty = all initialised
    u64 nsym = 0;
};

struct SymByte { SK sk; uint32_t bits; u8 idx; Z3_ast e; };

// counters shared between the processes that explore one entry
struct Shared {
    volatile int running, maxrun;
    volatile long paths, done, infeasible, excluded, unsupported, errors, forks, branches, queries, qsat, qunsat, qunknown,
        checks, checks_trivial, checks_undecided, instrs, limit_hit, solver_us, native_calls, pathrecs, cex, concrete;
    volatile int stop;
    u64 labels[1024]; volatile int nlabels;   // labels for which counterexamples were written (hash), with counts
    int label_cnt[1024];
    u64 covers[1024]; volatile int ncovers;
    u64 notes[256]; volatile int nnotes;
    u8 fnused[65536];
};
