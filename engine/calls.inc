// ------------------------------------------------------------------ calls: intrinsics, models of library functions, native calls
typedef std::vector<Val> Args;
typedef std::function<Val(Args &, const CallBase *)> Handler; // returns the result; may not push frames
static std::unordered_map<std::string, Handler> HAND;
struct Thrown { u64 obj, ti; };   // host exception used by handlers to raise an interpreted exception
static Val vecop(const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &g);

static u64 cval(const Val &v, const char *what) { return concretize(v, what); }
static std::string cstr(u64 a) {
    std::string s;
    for (u64 i = 0; i < 65536; i++) { Obj *o = access(a + i, 1, false, "string"); Val b = byte_at(o, a + i); if (b.k != CONC) UNSUP("symbolic string argument"); if (!b.lo) break; s += (char)b.lo; }
    return s;
}
static Z3_ast zconst(const std::string &n, Z3_sort s) { return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), s); }
static Val new_input(const std::string &name, char type, unsigned bits, SK sk) {
    std::string nm = name + "#" + std::to_string(INPUTS.size());
    Z3_sort so = sk == SREAL ? zreal() : sk == SFP ? zfp(bits) : zbv(bits);
    Z3_ast e = zconst(nm, so);
    INPUTS.push_back({name, type, type == 'i' && bits < 64 ? Z3_mk_zero_ext(Z, 64 - bits, e) : e, bits});
    return vs(sk, bits, e);
}
static Val do_vf_real(Args &a, unsigned bits) {
    std::string nm = cstr(a[0].lo); double lo = fval(a[1]), hi = fval(a[2]);
    if (WARM) return bits == 32 ? vfloat(warm_real(lo, hi)) : vdouble(warm_real(lo, hi));
    if (!REALMODE) {
        Val v = new_input(nm, 'f', bits, SFP);
        assume(zand(Z3_mk_fpa_geq(Z, v.e, asFP(bits == 32 ? vfloat(lo) : vdouble(lo))), Z3_mk_fpa_leq(Z, v.e, asFP(bits == 32 ? vfloat(hi) : vdouble(hi)))));
        return v;
    }
    Val v = new_input(nm, 'r', bits, SREAL);
    assume(zand(Z3_mk_ge(Z, v.e, zrat(lo)), Z3_mk_le(Z, v.e, zrat(hi))));
    return v;
}
static void do_check(const Val &c, const std::string &label, Z3_ast strong = nullptr) {
    INC(checks);
    if (c.k == UNDEF) { cex_here("uninit", "check on an uninitialised value: " + label); end_path("done-error"); }
    if (c.k == CONC) { if (c.lo & 1) { INC(checks_trivial); return; } cex_here("check", label); end_path("done-error"); }
    Z3_ast b = asBool(c), nb = Z3_simplify(Z, znot(b));
    if (is_false(nb)) { INC(checks_trivial); return; }
    static Z3_params som = nullptr;
    if (!som) { som = Z3_mk_params(Z); Z3_params_inc_ref(Z, som); Z3_params_set_bool(Z, som, Z3_mk_string_symbol(Z, "som"), true); }
    if (REALMODE) { // polynomials in normal form
        nb = Z3_simplify_ex(Z, nb, som);
        if (is_false(nb)) { INC(checks_trivial); return; }
    }
    Z3_model m = nullptr; Z3_lbool r = check_with(nb, &m);
    if (r == Z3_L_TRUE) { cex("check", label, nb, m, strong); if (MODEL && model_bool(b) != 1) MODEL = nullptr; assume(b); if (!ensure_model()) UNSUP("undecided path condition"); return; }
    if (r == Z3_L_UNDEF) { INC(checks_undecided); note("undecided", label); }
}
static Val rel(unsigned pred, const Val &a, const Val &b) { return fcmp(pred, a, b); }
static Val fminmax(const Val &a, const Val &b, bool mx) {
    if (a.k == UNDEF || b.k == UNDEF) return vundef(a.bits);
    if (a.k == CONC && std::isnan(fval(a))) return b;
    if (b.k == CONC && std::isnan(fval(b))) return a;
    Val c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b);
    if (c.k == CONC) return c.lo ? a : b;
    if (!isReal(a) && !isReal(b)) {
        Z3_ast x = asFP(a), y = asFP(b);
        return vs(SFP, a.bits, Z3_simplify(Z, mx ? Z3_mk_fpa_max(Z, x, y) : Z3_mk_fpa_min(Z, x, y)));
    }
    if ((a.k == CONC && !std::isfinite(fval(a))) || (b.k == CONC && !std::isfinite(fval(b)))) return decide(c.e) ? a : b;
    return vs(SREAL, a.bits, Z3_simplify(Z, Z3_mk_ite(Z, c.e, asReal(a), asReal(b))));
}
static Val mk_agg(std::initializer_list<Val> l) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(l); return v; }
static Val vfp(unsigned bits, double d) { return bits == 32 ? vfloat((float)d) : vdouble(d); }
static Val fpow(const Val &a, const Val &b) {
    if (a.k == CONC && b.k == CONC) return a.bits == 32 ? vfloat(powf(fval(a), fval(b))) : vdouble(pow(fval(a), fval(b)));
    if (b.k == CONC) {
        double e = fval(b);
        if (e == 0.5) return fsqrt(a);
        if (e * 2 == (int)(e * 2) && e != (int)e && e > 0 && e <= 4) { Val r = fsqrt(a); for (int i = 0; i < (int)e; i++) r = fbin(Instruction::FMul, r, a); return r; }
        if (e == (int)e && fabs(e) <= 8) { int n = (int)fabs(e); Val r = vfp(a.bits, 1); for (int i = 0; i < n; i++) r = fbin(Instruction::FMul, r, a); if (e < 0) r = fbin(Instruction::FDiv, vfp(a.bits, 1), r); return r; }
    }
    UNSUP("pow of a symbolic value");
}
// class tests: bits as in llvm.is.fpclass
static Val fpclass(const Val &a, unsigned m) {
    if (a.k == UNDEF) return vundef(1);
    if (a.k == CONC) {
        double d = fval(a); bool neg = std::signbit(d), sub = a.bits == 32 ? std::fpclassify((float)d) == FP_SUBNORMAL : std::fpclassify(d) == FP_SUBNORMAL;
        unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (neg ? 4 : 512) : d == 0 ? (neg ? 32 : 64) : sub ? (neg ? 16 : 128) : (neg ? 8 : 256);
        return vc(1, (c & m) != 0);
    }
    if (isReal(a)) {
        bool z = m & 96, n = m & 8, p = m & 256; // zero, negative normal, positive normal
        if (z && n && p) return vc(1, 1);
        if (!z && !n && !p) return vc(1, 0);
        Z3_ast x = asReal(a), r = Z3_mk_false(Z);
        if (z) r = zor(r, Z3_mk_eq(Z, x, zrat(0))); if (n) r = zor(r, Z3_mk_lt(Z, x, zrat(0))); if (p) r = zor(r, Z3_mk_gt(Z, x, zrat(0)));
        return simp_bv(SBOOL, 1, r);
    }
    Z3_ast x = asFP(a), ng = Z3_mk_fpa_is_negative(Z, x), ps = Z3_mk_fpa_is_positive(Z, x), r = Z3_mk_false(Z);
    auto add = [&](unsigned bit, Z3_ast c) { if (m & bit) r = zor(r, c); };
    add(3, Z3_mk_fpa_is_nan(Z, x));
    add(4, zand(ng, Z3_mk_fpa_is_infinite(Z, x))); add(8, zand(ng, Z3_mk_fpa_is_normal(Z, x))); add(16, zand(ng, Z3_mk_fpa_is_subnormal(Z, x))); add(32, zand(ng, Z3_mk_fpa_is_zero(Z, x)));
    add(512, zand(ps, Z3_mk_fpa_is_infinite(Z, x))); add(256, zand(ps, Z3_mk_fpa_is_normal(Z, x))); add(128, zand(ps, Z3_mk_fpa_is_subnormal(Z, x))); add(64, zand(ps, Z3_mk_fpa_is_zero(Z, x)));
    return simp_bv(SBOOL, 1, r);
}
static Val iminmax(unsigned pred, const Val &a, const Val &b) {
    Val c = icmp(pred, a, b);
    if (c.k == CONC) return c.lo ? a : b;
    if (c.k == UNDEF) return vundef(a.bits);
    return simp_bv(SBV, a.bits, Z3_mk_ite(Z, asBool(c), asBV(a), asBV(b)));
}
static void free_ptr(u64 p, const char *how) {
    if (!p) return;
    if (!in_arena(p)) { free((void *)p); return; }
    auto it = OBJ.find(p);
    if (it == OBJ.end()) mem_error(std::string("invalid or double ") + how);
    if (it->second->kind != 'h') mem_error(std::string(how) + " of a non-heap object");
    obj_free(it->second); liveHeap--;
}
static Val cmp_bytes(u64 a, u64 b, u64 n, bool zterm, bool eqonly) { // memcmp / strcmp; forks on the first difference
    if (eqonly && !zterm) {
        Z3_ast all = nullptr;
        if (n) { access(a, n, false, "memcmp"); access(b, n, false, "memcmp"); }
        for (u64 i = 0; i < n; i++) {
            Val x = load(a + i, Type::getInt8Ty(M->getContext())), y = load(b + i, Type::getInt8Ty(M->getContext()));
            Val e = icmp(CmpInst::ICMP_EQ, x, y);
            if (e.k == UNDEF) { cex_here("uninit", "comparison of uninitialised memory"); end_path("done-error"); }
            if (e.k == CONC) { if (!e.lo) return vc(32, 1); } else all = all ? zand(all, e.e) : e.e;
        }
        if (!all) return vc(32, 0);
        return simp_bv(SBV, 32, Z3_mk_ite(Z, all, zbvn(32, 0), zbvn(32, 1)));
    }
    for (u64 i = 0; i < n; i++) {
        Val x = load(a + i, Type::getInt8Ty(M->getContext())), y = load(b + i, Type::getInt8Ty(M->getContext()));
        Val e = icmp(CmpInst::ICMP_EQ, x, y);
        if (e.k == UNDEF) { cex_here("uninit", "comparison of uninitialised memory"); end_path("done-error"); }
        bool eq = e.k == CONC ? e.lo : decide(e.e);
        if (!eq) { Val l = icmp(CmpInst::ICMP_ULT, x, y); bool lt = l.k == CONC ? l.lo : decide(l.e); return vc(32, lt ? ~0ull : 1); }
        if (zterm) { Val z = icmp(CmpInst::ICMP_EQ, x, vc(8, 0)); if (z.k == CONC ? z.lo : decide(z.e)) break; }
    }
    return vc(32, 0);
}
static Val new_obj_or_throw(u64 size, u64 align) {
    if (size > (1ull << 30)) throw std::bad_alloc();
    return vc(64, heap_alloc(size, align, false)->base);
}
[[noreturn]] static void die(const char *kind, const std::string &l) { cex_here(kind, l); end_path("done-error"); }

static void intercepts_init() {
    auto &H = HAND;
    // ---- harness interface
    H["vf_real"] = [](Args &a, const CallBase *) { return do_vf_real(a, 64); };
    H["vf_realf"] = [](Args &a, const CallBase *) { return do_vf_real(a, 32); };
    H["vf_fp64"] = [](Args &a, const CallBase *) { return WARM ? vdouble(warm_real(0, 1)) : new_input(cstr(a[0].lo), 'f', 64, SFP); };
    H["vf_fp32"] = [](Args &a, const CallBase *) { return WARM ? vfloat(warm_real(0, 1)) : new_input(cstr(a[0].lo), 'f', 32, SFP); };
    H["vf_u8"] = [](Args &a, const CallBase *) { return WARM ? vc(8, warm_whole(0, 255)) : new_input(cstr(a[0].lo), 'i', 8, SBV); };
    H["vf_u32"] = [](Args &a, const CallBase *) { return WARM ? vc(32, warm_whole(0, 255)) : new_input(cstr(a[0].lo), 'i', 32, SBV); };
    H["vf_int"] = [](Args &a, const CallBase *) {
        int64_t lo = (int64_t)cval(a[1], "bound"), hi = (int64_t)cval(a[2], "bound"); if (hi < lo) end_path("infeasible");
        u64 span = (u64)hi - (u64)lo; if (WARM) return vc(64, warm_whole(lo, span)); unsigned w = 1; while (w < 64 && (span >> w)) w++;
        Val v = new_input(cstr(a[0].lo), 'i', w < 62 ? w : 64, SBV);
        if (w >= 62) assume(zand(Z3_mk_bvsge(Z, v.e, zbvn(64, lo)), Z3_mk_bvsle(Z, v.e, zbvn(64, hi))));
        else {
            if (span != (((u64)1 << w) - 1)) assume(Z3_mk_bvule(Z, v.e, zbvn(w, span)));
            v = vs(SBV, 64, Z3_simplify(Z, Z3_mk_bvadd(Z, Z3_mk_zero_ext(Z, 64 - w, v.e), zbvn(64, lo))));
            INPUTS.back().e = v.e; INPUTS.back().bits = 64;
        }
        return v; };
    H["vf_pick"] = [](Args &a, const CallBase *) {
        int64_t lo = (int64_t)cval(a[1], "pick"), hi = (int64_t)cval(a[2], "pick"), v = lo; std::string nm = cstr(a[0].lo);
        if (hi < lo) end_path("infeasible");
        if (WARM) return vc(64, warm_whole(lo, (u64)hi - (u64)lo));
        for (; v < hi; v++) if (!fork_path()) break; // the parent takes v, the child goes on
        INPUTS.push_back({nm, 'p', zbvn(64, (u64)v), 64});
        return vc(64, (u64)v); };
    H["vf_assume"] = [](Args &a, const CallBase *) {
        if (WARM && a[0].k != CONC) throw WarmEnd{false};
        if (a[0].k == CONC) { if (!(a[0].lo & 1)) end_path("infeasible"); return Val(); }
        if (a[0].k == UNDEF) die("uninit", "assumption on an uninitialised value");
        assume(Z3_simplify(Z, asBool(a[0]))); if (!ensure_model()) UNSUP("undecided path condition"); return Val(); };
    H["vf_check"] = [](Args &a, const CallBase *) { if (WARM) { if (a[0].k != CONC || !(a[0].lo & 1)) throw WarmEnd{a[0].k == CONC}; return Val(); } do_check(a[0], cstr(a[1].lo)); return Val(); };
    H["vf_close"] = [](Args &a, const CallBase *) {
        if (WARM) return Val();
        std::string l = cstr(a[3].lo); double tol = fval(a[2]);
        if (a[0].k == UNDEF || a[1].k == UNDEF) die("uninit", "comparison of an uninitialised value: " + l);
        OBS.push_back({l, a[0]});
        if (a[0].k == CONC && a[1].k == CONC) { double x = fval(a[0]), y = fval(a[1]); bool ok = x == y || fabs(x - y) <= tol || (std::isnan(x) && std::isnan(y)); do_check(vc(1, ok), l); return Val(); }
        bool r0 = isReal(a[0]), r1 = isReal(a[1]);
        if (r0 || r1) {
            for (int i = 0; i < 2; i++) if (a[i].k == CONC && !std::isfinite(fval(a[i]))) { do_check(vc(1, 0), l); return Val(); }
            Z3_ast d = Z3_simplify(Z, zsub(asReal(a[0]), asReal(a[1])));
            Z3_ast c = zand(Z3_mk_le(Z, d, zrat(tol)), Z3_mk_ge(Z, d, zrat(-tol)));
            Z3_ast st = zor(Z3_mk_gt(Z, d, zrat(tol * 10 + 0.01)), Z3_mk_lt(Z, d, zrat(-tol * 10 - 0.01)));
            do_check(simp_bv(SBOOL, 1, c), l, st);
        } else {
            Z3_ast x = asFP(a[0]), y = asFP(a[1]), d = Z3_mk_fpa_sub(Z, zrm(), x, y);
            Z3_ast c = zor(zand(Z3_mk_fpa_leq(Z, d, asFP(vdouble(tol))), Z3_mk_fpa_geq(Z, d, asFP(vdouble(-tol)))), zor(Z3_mk_fpa_eq(Z, x, y), zand(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y))));
            do_check(simp_bv(SBOOL, 1, c), l);
        }
        return Val(); };
    H["vf_observe"] = [](Args &a, const CallBase *) { if (!WARM) OBS.push_back({cstr(a[0].lo), a[1]}); return Val(); };
    H["vf_cover"] = [](Args &a, const CallBase *) {
        if (WARM) return Val();
        std::string l = cstr(a[0].lo); if (!MODEL) ensure_model();
        u64 h = hashs(l); for (int i = 0; i < S->ncovers && i < 1024; i++) if (S->covers[i] == h) return Val();
        int i = __sync_fetch_and_add(&S->ncovers, 1); if (i < 1024) S->covers[i] = h;
        emit("{\"t\":\"cover\",\"name\":\"" + jesc(l) + "\"}"); return Val(); };
    H["vf_fail"] = [](Args &a, const CallBase *) { if (WARM) throw WarmEnd{true}; INC(checks); std::string l = cstr(a[0].lo); die("check", l); return Val(); };
    H["vf_live_heap"] = [](Args &, const CallBase *) { return vc(64, (u64)liveHeap); };
    H["vf_is_symbolic"] = [](Args &, const CallBase *) { return vc(1, 1); };
    // ---- heap
    for (const char *n : {"_Znwm", "_Znam"}) H[n] = [](Args &a, const CallBase *) { return new_obj_or_throw(cval(a[0], "allocation size"), 16); };
    for (const char *n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) H[n] = [](Args &a, const CallBase *) { u64 s = cval(a[0], "allocation size"); return s > (1ull << 30) ? vc(64, 0) : vc(64, heap_alloc(s, 16, false)->base); };
    for (const char *n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) H[n] = [](Args &a, const CallBase *) { return new_obj_or_throw(cval(a[0], "allocation size"), cval(a[1], "alignment")); };
    for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
        H[n] = [](Args &a, const CallBase *) { free_ptr(cval(a[0], "pointer"), "delete"); return Val(); };
    H["free"] = [](Args &a, const CallBase *) { free_ptr(cval(a[0], "pointer"), "free"); return Val(); };
    H["malloc"] = [](Args &a, const CallBase *) { u64 s = cval(a[0], "allocation size"); return s > (1ull << 30) ? vc(64, 0) : vc(64, heap_alloc(s, 16, false)->base); };
    H["calloc"] = [](Args &a, const CallBase *) { u64 s = cval(a[0], "allocation size") * cval(a[1], "allocation size"); if (s > (1ull << 30)) return vc(64, 0); Obj *o = heap_alloc(s, 16, true); memset((void *)o->base, 0, s); return vc(64, o->base); };
    H["realloc"] = [](Args &a, const CallBase *) {
        u64 p = cval(a[0], "pointer"), s = cval(a[1], "allocation size"); if (s > (1ull << 30)) return vc(64, 0);
        Obj *o = heap_alloc(s, 16, false); if (p) { auto it = OBJ.find(p); if (it == OBJ.end() || it->second->kind != 'h') mem_error("invalid realloc"); mem_copy(o->base, p, std::min(s, it->second->size)); free_ptr(p, "realloc"); } return vc(64, o->base); };
    H["aligned_alloc"] = [](Args &a, const CallBase *) { return vc(64, heap_alloc(cval(a[1], "allocation size"), cval(a[0], "alignment"), false)->base); };
    H["posix_memalign"] = [](Args &a, const CallBase *) { u64 s = cval(a[2], "allocation size"); if (s > (1ull << 30)) return vc(32, 12); Obj *o = heap_alloc(s, cval(a[1], "alignment"), false); store(cval(a[0], "pointer"), vc(64, o->base), Type::getInt64Ty(M->getContext())); return vc(32, 0); };
    // ---- memory and C strings
    for (const char *n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) H[n] = [](Args &a, const CallBase *) { u64 d = cval(a[0], "address"), s = cval(a[1], "address"); mem_copy(d, s, cval(a[2], "copy length")); return vc(64, d); };
    H["memset"] = [](Args &a, const CallBase *) { u64 d = cval(a[0], "address"); mem_set(d, trunc_val(a[1], 8), cval(a[2], "fill length")); return vc(64, d); };
    H["memcmp"] = [](Args &a, const CallBase *) { return cmp_bytes(cval(a[0], "address"), cval(a[1], "address"), cval(a[2], "length"), false, false); };
    H["bcmp"] = [](Args &a, const CallBase *) { return cmp_bytes(cval(a[0], "address"), cval(a[1], "address"), cval(a[2], "length"), false, true); };
    H["strcmp"] = [](Args &a, const CallBase *) { return cmp_bytes(cval(a[0], "address"), cval(a[1], "address"), 1 << 20, true, false); };
    H["strncmp"] = [](Args &a, const CallBase *) { return cmp_bytes(cval(a[0], "address"), cval(a[1], "address"), cval(a[2], "length"), true, false); };
    H["strlen"] = [](Args &a, const CallBase *) { u64 p = cval(a[0], "address"); for (u64 i = 0;; i++) { Val x = load(p + i, Type::getInt8Ty(M->getContext())), z = icmp(CmpInst::ICMP_EQ, x, vc(8, 0)); if (z.k == UNDEF) die("uninit", "strlen over uninitialised memory"); if (z.k == CONC ? z.lo : decide(z.e)) return vc(64, i); } };
    H["memchr"] = [](Args &a, const CallBase *) { u64 p = cval(a[0], "address"), n = cval(a[2], "length"); Val c = trunc_val(a[1], 8); for (u64 i = 0; i < n; i++) { Val x = load(p + i, Type::getInt8Ty(M->getContext())), z = icmp(CmpInst::ICMP_EQ, x, c); if (z.k == UNDEF) die("uninit", "memchr over uninitialised memory"); if (z.k == CONC ? z.lo : decide(z.e)) return vc(64, p + i); } return vc(64, 0); };
    // ---- exceptions
    H["__cxa_allocate_exception"] = [](Args &a, const CallBase *) { Obj *o = heap_alloc(cval(a[0], "size"), 16, false); liveHeap--; return vc(64, o->base); };
    H["__cxa_free_exception"] = [](Args &, const CallBase *) { return Val(); };
    H["__cxa_throw"] = [](Args &a, const CallBase *) -> Val { throw Thrown{a[0].lo, a[1].lo}; };
    H["__cxa_rethrow"] = [](Args &, const CallBase *) -> Val { if (CAUGHT.empty()) die("uncaught", "rethrow without exception"); u64 e = CAUGHT.back(); throw Thrown{e, EXCS[e].ti}; };
    H["__cxa_begin_catch"] = [](Args &a, const CallBase *) { CAUGHT.push_back(a[0].lo); auto it = ADJUSTED.find(a[0].lo); return vc(64, it == ADJUSTED.end() ? a[0].lo : it->second); };
    H["__cxa_get_exception_ptr"] = [](Args &a, const CallBase *) { auto it = ADJUSTED.find(a[0].lo); return vc(64, it == ADJUSTED.end() ? a[0].lo : it->second); };
    H["__cxa_end_catch"] = [](Args &, const CallBase *) { if (!CAUGHT.empty()) CAUGHT.pop_back(); return Val(); };
    H["__cxa_guard_acquire"] = [](Args &a, const CallBase *) { return vc(32, *(u8 *)a[0].lo == 0); };
    H["__cxa_guard_release"] = [](Args &a, const CallBase *) { store(a[0].lo, vc(8, 1), Type::getInt8Ty(M->getContext())); return Val(); };
    H["__cxa_guard_abort"] = [](Args &, const CallBase *) { return Val(); };
    for (const char *n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) H[n] = [](Args &, const CallBase *) { return vc(32, 0); };
    H["_ZSt9terminatev"] = [](Args &, const CallBase *) -> Val { die("uncaught", "std::terminate called"); };
    H["__clang_call_terminate"] = [](Args &, const CallBase *) -> Val { die("uncaught", "exception escapes a noexcept function"); };
    H["abort"] = [](Args &, const CallBase *) -> Val { die("abort", "abort called"); };
    H["__assert_fail"] = [](Args &a, const CallBase *) -> Val { die("abort", "assertion failed: " + cstr(a[0].lo)); };
    H["__cxa_pure_virtual"] = [](Args &, const CallBase *) -> Val { die("abort", "pure virtual function called"); };
    H["exit"] = [](Args &, const CallBase *) -> Val { die("abort", "exit called"); };
    H["_ZNSt8ios_base4InitC1Ev"] = [](Args &, const CallBase *) { return Val(); };
    H["_ZNSt8ios_base4InitD1Ev"] = [](Args &, const CallBase *) { return Val(); };
    // ---- mathematics
    for (std::string s : {"", "f"}) {
        auto un = [&](const std::string &n, std::function<Val(const Val &)> g) { H[n + s] = [g](Args &a, const CallBase *) { return g(fofbits(a[0])); }; };
        auto bi = [&](const std::string &n, std::function<Val(const Val &, const Val &)> g) { H[n + s] = [g](Args &a, const CallBase *) { return g(fofbits(a[0]), fofbits(a[1])); }; };
        un("sqrt", [](const Val &a) { return fsqrt(a); }); un("fabs", [](const Val &a) { return fabsv(a); }); un("floor", [](const Val &a) { return froundop(a, 'f'); }); un("ceil", [](const Val &a) { return froundop(a, 'c'); });
        un("round", [](const Val &a) { return froundop(a, 'r'); }); un("trunc", [](const Val &a) { return froundop(a, 't'); }); un("rint", [](const Val &a) { return froundop(a, 'e'); }); un("nearbyint", [](const Val &a) { return froundop(a, 'e'); });
        for (auto n : {"lround", "llround"}) un(n, [](const Val &a) { return fptoint(froundop(a, 'r'), 64, true); });
        for (auto n : {"lrint", "llrint"}) un(n, [](const Val &a) { return fptoint(froundop(a, 'e'), 64, true); });
        bi("fmax", [](const Val &a, const Val &b) { return fminmax(a, b, true); }); bi("fmin", [](const Val &a, const Val &b) { return fminmax(a, b, false); });
        bi("pow", fpow);
        bi("hypot", [](const Val &a, const Val &b) { return fsqrt(fbin(Instruction::FAdd, fbin(Instruction::FMul, a, a), fbin(Instruction::FMul, b, b))); });
        H["fma" + s] = [](Args &a, const CallBase *) { return fbin(Instruction::FAdd, fbin(Instruction::FMul, fofbits(a[0]), fofbits(a[1])), fofbits(a[2])); };
    }
    // diagnostics that formatting would need concrete values for
    for (const char *n : {"puts", "putchar", "printf", "fprintf", "fputs", "fflush", "fwrite"}) H[n] = [](Args &, const CallBase *cb) { return cb->getType()->isVoidTy() ? Val() : vc(tbits(cb->getType()), 0); };
}

// ---- LLVM intrinsics
static Val ew(Type *t, const Args &a, const std::function<Val(Type *, const Args &)> &g) { // element-wise over vectors
    bool agg = false; for (auto &x : a) if (x.k == AGG) agg = true;
    if (!agg) return g(t, a);
    Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = nelem(t);
    for (unsigned i = 0; i < n; i++) { Args b; for (auto &x : a) b.push_back(x.k == AGG ? (*x.agg)[i] : x); r.agg->push_back(g(elemTy(t, i), b)); }
    return r;
}
static Val overflow(Intrinsic::ID id, const Val &a, const Val &b) {
    unsigned n = a.bits;
    if (a.k == UNDEF || b.k == UNDEF) return mk_agg({vundef(n), vundef(1)});
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned op = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? Instruction::Add : id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? Instruction::Sub : Instruction::Mul;
    Val r = binop(op, a, b); unsigned w = op == Instruction::Mul ? 2 * n : n + 1;
    if (w > 128) UNSUP("wide overflow intrinsic");
    if (a.k == CONC && b.k == CONC) {
        Val x = sg ? sext_val(a, w) : zext_val(a, w), y = sg ? sext_val(b, w) : zext_val(b, w), z = binop(op, x, y), back = sg ? sext_val(r, w) : zext_val(r, w);
        return mk_agg({r, icmp(CmpInst::ICMP_NE, z, back)});
    }
    Z3_ast x = asBV(a), y = asBV(b), wx = sg ? Z3_mk_sign_ext(Z, w - n, x) : Z3_mk_zero_ext(Z, w - n, x), wy = sg ? Z3_mk_sign_ext(Z, w - n, y) : Z3_mk_zero_ext(Z, w - n, y);
    Z3_ast z = op == Instruction::Add ? Z3_mk_bvadd(Z, wx, wy) : op == Instruction::Sub ? Z3_mk_bvsub(Z, wx, wy) : Z3_mk_bvmul(Z, wx, wy);
    Z3_ast rb = asBV(r), back = sg ? Z3_mk_sign_ext(Z, w - n, rb) : Z3_mk_zero_ext(Z, w - n, rb);
    return mk_agg({r, simp_bv(SBOOL, 1, znot(Z3_mk_eq(Z, z, back)))});
}
static Val bitcount(Intrinsic::ID id, const Val &a, bool) {
    unsigned n = a.bits;
    if (a.k == UNDEF) return a;
    if (a.k == CONC) {
        u64 x = a.lo; if (n > 64) UNSUP("wide bit count");
        if (id == Intrinsic::ctpop) return vc(n, __builtin_popcountll(x));
        if (id == Intrinsic::ctlz) return vc(n, x ? __builtin_clzll(x) - (64 - n) : n);
        return vc(n, x ? __builtin_ctzll(x) : n);
    }
    Z3_ast x = asBV(a), r;
    if (id == Intrinsic::ctpop) { r = zbvn(n, 0); for (unsigned i = 0; i < n; i++) { Z3_ast b = Z3_mk_extract(Z, i, i, x); r = Z3_mk_bvadd(Z, r, n > 1 ? Z3_mk_zero_ext(Z, n - 1, b) : b); } }
    else { r = zbvn(n, n); for (unsigned k = 0; k < n; k++) { unsigned i = id == Intrinsic::ctlz ? k : n - 1 - k; r = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, x), zbvn(1, 1)), zbvn(n, id == Intrinsic::ctlz ? n - 1 - i : i), r); } }
    return simp_bv(SBV, n, r);
}
static Val fsh(bool left, const Val &a, const Val &b, const Val &c) {
    unsigned n = a.bits; Val sh = binop(Instruction::URem, c, vc(n, n));
    if (sh.k == CONC) { unsigned k = sh.lo; if (!k) return left ? a : b; return left ? binop(Instruction::Or, binop(Instruction::Shl, a, vc(n, k)), binop(Instruction::LShr, b, vc(n, n - k))) : binop(Instruction::Or, binop(Instruction::Shl, a, vc(n, n - k)), binop(Instruction::LShr, b, vc(n, k))); }
    u64 k = concretize(sh, "shift amount"); return fsh(left, a, b, vc(n, k));
}
static Val intrinsic(const IntrinsicInst *ii, Args &a) {
    auto id = ii->getIntrinsicID(); Type *T = ii->getType();
    auto fl = [&](const std::function<Val(const Args &)> &g) { Args b; for (auto &x : a) b.push_back(x.k == AGG ? x : fofbits(x)); return ew(T, b, [&](Type *, const Args &v) { return g(v); }); };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = cval(a[2], "copy length"); if (n) { u64 d = cval(a[0], "address"); mem_copy(d, cval(a[1], "address"), n); } return Val(); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = cval(a[2], "fill length"); if (n) mem_set(cval(a[0], "address"), a[1], n); return Val(); }
    case Intrinsic::umin: return ew(T, a, [](Type *, const Args &v) { return iminmax(CmpInst::ICMP_ULT, v[0], v[1]); });
    case Intrinsic::umax: return ew(T, a, [](Type *, const Args &v) { return iminmax(CmpInst::ICMP_UGT, v[0], v[1]); });
    case Intrinsic::smin: return ew(T, a, [](Type *, const Args &v) { return iminmax(CmpInst::ICMP_SLT, v[0], v[1]); });
    case Intrinsic::smax: return ew(T, a, [](Type *, const Args &v) { return iminmax(CmpInst::ICMP_SGT, v[0], v[1]); });
    case Intrinsic::abs: return ew(T, {a[0]}, [](Type *, const Args &v) { return iminmax(CmpInst::ICMP_SGT, v[0], binop(Instruction::Sub, vc(v[0].bits, 0), v[0])); });
    case Intrinsic::fabs: return fl([](const Args &v) { return fabsv(v[0]); });
    case Intrinsic::sqrt: return fl([](const Args &v) { return fsqrt(v[0]); });
    case Intrinsic::floor: return fl([](const Args &v) { return froundop(v[0], 'f'); });
    case Intrinsic::ceil: return fl([](const Args &v) { return froundop(v[0], 'c'); });
    case Intrinsic::trunc: return fl([](const Args &v) { return froundop(v[0], 't'); });
    case Intrinsic::round: return fl([](const Args &v) { return froundop(v[0], 'r'); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fl([](const Args &v) { return froundop(v[0], 'e'); });
    case Intrinsic::lround: case Intrinsic::llround: return fptoint(froundop(fofbits(a[0]), 'r'), tbits(T), true);
    case Intrinsic::lrint: case Intrinsic::llrint: return fptoint(froundop(fofbits(a[0]), 'e'), tbits(T), true);
    case Intrinsic::fma: case Intrinsic::fmuladd: return fl([](const Args &v) { return fbin(Instruction::FAdd, fbin(Instruction::FMul, v[0], v[1]), v[2]); });
    case Intrinsic::minnum: case Intrinsic::minimum: return fl([](const Args &v) { return fminmax(v[0], v[1], false); });
    case Intrinsic::maxnum: case Intrinsic::maximum: return fl([](const Args &v) { return fminmax(v[0], v[1], true); });
    case Intrinsic::pow: return fl([](const Args &v) { return fpow(v[0], v[1]); });
    case Intrinsic::powi: return fpow(fofbits(a[0]), vfp(a[0].bits, (double)(int64_t)sext64(cval(a[1], "exponent"), a[1].bits)));
    case Intrinsic::copysign: return fl([](const Args &v) {
        if (v[0].k == CONC && v[1].k == CONC) return vfp(v[0].bits, copysign(fval(v[0]), fval(v[1])));
        if (!isReal(v[0]) && !isReal(v[1])) { Z3_ast x = Z3_mk_fpa_abs(Z, asFP(v[0])); return vs(SFP, v[0].bits, Z3_mk_ite(Z, Z3_mk_fpa_is_negative(Z, asFP(v[1])), Z3_mk_fpa_neg(Z, x), x)); }
        Val m = fabsv(v[0]); Val neg = fcmp(CmpInst::FCMP_OLT, v[1], vfp(v[1].bits, 0)); bool n = neg.k == CONC ? neg.lo : decide(asBool(neg)); return n ? fneg(m) : m; });
    case Intrinsic::is_fpclass: return fpclass(fofbits(a[0]), a[1].lo);
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return overflow(id, a[0], a[1]);
    case Intrinsic::usub_sat: return ew(T, a, [](Type *, const Args &v) { Val c = icmp(CmpInst::ICMP_ULT, v[0], v[1]), d = binop(Instruction::Sub, v[0], v[1]); if (c.k == CONC) return c.lo ? vc(v[0].bits, 0) : d; if (c.k == UNDEF) return d; return simp_bv(SBV, d.bits, Z3_mk_ite(Z, asBool(c), zbvn(d.bits, 0), asBV(d))); });
    case Intrinsic::uadd_sat: return ew(T, a, [](Type *, const Args &v) { Val d = binop(Instruction::Add, v[0], v[1]), c = icmp(CmpInst::ICMP_ULT, d, v[0]); if (c.k == CONC) return c.lo ? vc(v[0].bits, ~0ull, ~0ull) : d; if (c.k == UNDEF) return d; return simp_bv(SBV, d.bits, Z3_mk_ite(Z, asBool(c), zbvn(d.bits, ~0ull, ~0ull), asBV(d))); });
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: return ew(T, {a[0]}, [&](Type *, const Args &v) { return bitcount(id, v[0], false); });
    case Intrinsic::bswap: { unsigned n = a[0].bits / 8; auto b = to_bytes(a[0], n); std::reverse(b.begin(), b.end()); return norm_bytes(b); }
    case Intrinsic::fshl: return ew(T, a, [](Type *, const Args &v) { return fsh(true, v[0], v[1], v[2]); });
    case Intrinsic::fshr: return ew(T, a, [](Type *, const Args &v) { return fsh(false, v[0], v[1], v[2]); });
    case Intrinsic::eh_typeid_for: return vc(32, tid(a[0].lo));
    case Intrinsic::stacksave: return vc(64, stkTop);
    case Intrinsic::stackrestore: return Val();
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: die("unreachable", "trap reached");
    case Intrinsic::is_constant: return vc(1, 0);
    case Intrinsic::objectsize: return vc(tbits(T), a[1].lo ? 0 : ~0ull);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: return a[0];
    case Intrinsic::ptrmask: return binop(Instruction::And, a[0], a[1]);
    case Intrinsic::load_relative: { u64 p = cval(a[0], "address"); Val o = load(p + cval(a[1], "offset"), Type::getInt32Ty(M->getContext())); return vc(64, p + sext64(o.lo, 32)); }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
        unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::Xor;
        Val r = (*a[0].agg)[0]; for (unsigned i = 1; i < a[0].agg->size(); i++) r = binop(op, r, (*a[0].agg)[i]); return r; }
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (auto &x : *a[1].agg) r = fbin(Instruction::FAdd, r, fofbits(x)); return r; }
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
        unsigned p = id == Intrinsic::vector_reduce_umax ? CmpInst::ICMP_UGT : id == Intrinsic::vector_reduce_umin ? CmpInst::ICMP_ULT : id == Intrinsic::vector_reduce_smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        Val r = (*a[0].agg)[0]; for (unsigned i = 1; i < a[0].agg->size(); i++) r = iminmax(p, r, (*a[0].agg)[i]); return r; }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: { if (a[0].k == CONC && std::isnan(fval(a[0]))) return vc(tbits(T), 0); return fptoint(fofbits(a[0]), tbits(T), id == Intrinsic::fptosi_sat); }
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: UNSUP("variadic function");
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: return Val();
    case Intrinsic::invariant_start: return vc(64, 0);
    default: {
        std::string n = ii->getCalledFunction()->getName().str();
        for (auto fnm : {"exp", "log", "sin", "cos", "exp2", "log2", "log10"}) if (n.rfind(std::string("llvm.") + fnm + ".", 0) == 0 && a[0].k == CONC) {
            double x = fval(a[0]), y = 0; std::string s = fnm;
            y = s == "exp" ? exp(x) : s == "log" ? log(x) : s == "sin" ? sin(x) : s == "cos" ? cos(x) : s == "exp2" ? exp2(x) : s == "log2" ? log2(x) : log10(x); return vfp(a[0].bits, y); }
        UNSUP("intrinsic " + n); }
    }
}

// ---- native calls
struct R2 { u64 a, b; }; struct RD { double a, b; }; struct RID { u64 a; double b; }; struct RDI { double a; u64 b; };
#define NA i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23]
static char ret_class(Type *t) { return t->isFloatingPointTy() || t->isVectorTy() ? 'd' : 'i'; }
static Val from_reg(Type *t, u64 x) {
    if (auto v = dyn_cast<FixedVectorType>(t)) { unsigned es = tbits(v->getElementType()); Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < v->getNumElements(); i++) r.agg->push_back(vc(es, x >> (es * i))); return r; }
    return vc(tbits(t), x);
}
static bool sym_in(u64 a, u64 n) { // any symbolic byte in [a, a+n)
    Obj *o = find_obj(a); if (!o || !o->nsym) return false;
    n = std::min(n, o->base + o->size - a);
    if (o->sh.empty()) { for (u64 i = 0; i < n; i++) if (CELL.count(a + i)) return true; return false; }
    for (u64 i = 0; i < n; i++) if (o->sh[a - o->base + i] == 2) return true;
    return false;
}
static void mark_init(u64 a, u64 n) {
    Obj *o = find_obj(a); if (!o || o->sh.empty()) return;
    n = std::min(n, o->base + o->size - a);
    for (u64 i = 0; i < n; i++) { u8 &s = o->sh[a - o->base + i]; if (s == 1) s = 0; }
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static Val native_call(u64 fn, const std::string &name, Args &a, const CallBase *cb) {
    FunctionType *ft = cb->getFunctionType(); Type *T = ft->getReturnType();
    bool isstr = name.find("NSt7__cxx1112basic_string") != std::string::npos || name.find("NKSt7__cxx1112basic_string") != std::string::npos;
    bool trusted = false; // only reads the words it may: see --trust in check.py
    if (!TRUST.empty()) { std::string d = demang(name); for (auto &t : TRUST) if (d.find(t) < d.find('(')) trusted = true; }
    bool shallow = trusted || name.find("_Rb_tree") != std::string::npos || name.find("_List_node_base") != std::string::npos;
    bool ostr = starts(name, "_ZNSo") || starts(name, "_ZStls") || starts(name, "_ZSt4endl") || starts(name, "_ZSt16__ostream_insert") || starts(name, "_ZNSt9basic_ios");
    for (unsigned k = 0; k < a.size(); k++) if (a[k].k == SYM || a[k].k == BLOB || a[k].k == AGG) {
        bool allc = a[k].k == AGG; if (allc) for (auto &x : *a[k].agg) if (x.k != CONC) allc = false;
        if (allc) continue;
        if (ostr) return a[0];
        UNSUP("symbolic argument to library function " + demang(name)); }
    u64 i[6] = {0}, s[24] = {0}; double d[8] = {0}; unsigned ni = 0, nd = 0, ns = 0;
    for (unsigned k = 0; k < a.size(); k++) {
        Type *t = cb->getArgOperand(k)->getType();
        if (cb->isByValArgument(k)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(k)); if (ns + (sz + 7) / 8 > 24) UNSUP("large by-value argument"); if (sym_in(a[k].lo, sz)) UNSUP("symbolic argument to library function " + demang(name)); memcpy(&s[ns], (void *)a[k].lo, sz); ns += (sz + 7) / 8; continue; }
        u64 x = a[k].k == UNDEF ? 0 : a[k].lo;
        if (t->isFloatTy() || t->isDoubleTy() || t->isVectorTy()) {
            if (t->isVectorTy()) { x = 0; unsigned es = tbits(cast<FixedVectorType>(t)->getElementType()); if (es * nelem(t) > 64) UNSUP("vector argument"); for (unsigned q = 0; q < nelem(t); q++) x |= (*a[k].agg)[q].lo << (es * q); }
            double y; memcpy(&y, &x, 8); if (nd < 8) d[nd++] = y; else s[ns++] = x; continue; }
        if (!t->isIntegerTy() && !t->isPointerTy()) UNSUP("argument type in a call of " + demang(name));
        if (t->isIntegerTy() && cb->paramHasAttr(k, Attribute::SExt)) x = sext64(x, a[k].bits);
        if (ni < 6) i[ni++] = x; else if (ns < 24) s[ns++] = x; else UNSUP("too many arguments");
        if (t->isPointerTy() && x) {
            Obj *o = find_obj(x);
            if (o && !shallow) {
                u64 from = isstr ? x : o->base, len = isstr ? std::min<u64>(32, o->base + o->size - x) : o->size;
                bool bad = sym_in(from, len);
                if (!bad && len <= 8192) for (u64 q = (from + 7) & ~7ull; q + 8 <= from + len; q += 8) { u64 p = *(u64 *)q; bool stale = false; if (!o->sh.empty()) for (int b = 0; b < 8; b++) stale |= o->sh[q + b - o->base] != 0; if (!stale && in_arena(p)) { Obj *o2 = find_obj(p); if (o2 && o2 != o && o2->nsym) { bad = isstr ? sym_in(p, o2->base + o2->size - p) : true; if (bad) break; } } }
                if (bad) { if (ostr) return a[0]; UNSUP("symbolic data passed to library function " + demang(name)); }
            }
        }
    }
    INC(native_calls);
    Val r; u64 exo = 0, ext = 0;
    try {
        if (T->isVoidTy()) ((void (*)(u64, ...))fn)(NA);
        else if (auto st = dyn_cast<StructType>(T)) {
            if (st->getNumElements() > 2) UNSUP("return type of " + demang(name));
            char c0 = ret_class(st->getElementType(0)), c1 = st->getNumElements() > 1 ? ret_class(st->getElementType(1)) : 'i'; u64 x, y;
            if (c0 == 'i' && c1 == 'i') { R2 q = ((R2(*)(u64, ...))fn)(NA); x = q.a; y = q.b; }
            else if (c0 == 'd' && c1 == 'd') { RD q = ((RD(*)(u64, ...))fn)(NA); memcpy(&x, &q.a, 8); memcpy(&y, &q.b, 8); }
            else if (c0 == 'i') { RID q = ((RID(*)(u64, ...))fn)(NA); x = q.a; memcpy(&y, &q.b, 8); }
            else { RDI q = ((RDI(*)(u64, ...))fn)(NA); memcpy(&x, &q.a, 8); y = q.b; }
            r = mk_agg({from_reg(st->getElementType(0), x)}); if (st->getNumElements() > 1) r.agg->push_back(from_reg(st->getElementType(1), y));
        }
        else if (T->isFloatTy() || T->isDoubleTy() || T->isVectorTy()) { double q = ((double (*)(u64, ...))fn)(NA); u64 x; memcpy(&x, &q, 8); r = from_reg(T, x); }
        else if (T->isX86_FP80Ty()) r = vld(((long double (*)(u64, ...))fn)(NA));
        else { u64 x = ((u64(*)(u64, ...))fn)(NA); r = from_reg(T, x); }
    } catch (Thrown &) { throw; }
    catch (...) {
        auto ep = new std::exception_ptr(std::current_exception()); // kept alive
        exo = *(u64 *)ep; ext = (u64)abi::__cxa_current_exception_type();
    }
    for (unsigned k = 0; k < a.size(); k++) if (cb->getArgOperand(k)->getType()->isPointerTy() && a[k].k == CONC && !cb->isByValArgument(k)) {
        if (shallow && !trusted) { mark_init(a[k].lo, 32); continue; }
        if (isstr) { mark_init(a[k].lo, 32); if (Obj *o = find_obj(a[k].lo); o && o->base + o->size >= a[k].lo + 8) { u64 p = *(u64 *)a[k].lo; Obj *o2 = find_obj(p); if (o2 && o2 != o) mark_init(p, o2->base + o2->size - p); } continue; }
        if (Obj *o = find_obj(a[k].lo)) mark_init(o->base, o->size); }
    if (exo) throw Thrown{exo, ext};
    return r;
}
static void fn_used(const Function *F) { // report every repository function that was interpreted, once
    u64 h = hashs(F->getName().str()); u8 *slot = &S->fnused[h & 65535];
    if (*slot) return;
    *slot = 1;
    auto sp = F->getSubprogram(); if (!sp) return;
    std::string file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) file = sp->getFilename().str();
    auto p = file.find("/repo/"); if (p == std::string::npos || F->getName().starts_with("_ZN3fmt")) return;
    emit("{\"t\":\"fn\",\"name\":\"" + jesc(fnname(F)) + "\",\"file\":\"" + jesc(file.substr(p + 6)) + "\",\"line\":" + std::to_string(sp->getLine()) + "}");
}
static void do_call(Frame &f, const Inst &n) {
    auto cb = cast<CallBase>(n.I);
    unsigned na = cb->arg_size();
    if (cb->isInlineAsm()) {
        if (cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) { finish_call(f, n, cb->getType()->isVoidTy() ? Val() : (na ? opv(f, n, 0) : undefOf(cb->getType()))); return; }
        UNSUP("inline assembly");
    }
    Args a; a.reserve(na);
    for (unsigned i = 0; i < na; i++) { if (n.ops[i] == 1 << 30) a.push_back(Val()); else a.push_back(opv(f, n, i)); }
    const Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    u64 fa = 0;
    if (!F) if (auto al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
    if (!F) {
        Val cv = opv(f, n, cb->getCalledOperandUse().getOperandNo());
        if (cv.k == UNDEF) { cex_here("uninit", "call through an uninitialised pointer"); end_path("done-error"); }
        fa = cval(cv, "function pointer");
        if (!fa) { cex_here("memory", "call through a null pointer"); end_path("done-error"); }
        auto it = FADDR.find(fa); if (it != FADDR.end()) F = it->second;
        else if (in_arena(fa)) { cex_here("memory", "call through a wild pointer"); end_path("done-error"); }
    }
    if (F && !F->isDeclaration()) {
        if (F->getName() == "__clang_call_terminate") { cex_here("uncaught", "exception escapes a noexcept function"); end_path("done-error"); }
        fn_used(F); enter(F, a); return;
    }
    Val r; bool thrown = false; Thrown te{0, 0};
    if (F && F->isIntrinsic()) r = intrinsic(cast<IntrinsicInst>(cb), a);
    else {
        std::string name = F ? F->getName().str() : std::string();
        if (!F) { Dl_info di; if (dladdr((void *)fa, &di) && di.dli_sname) name = di.dli_sname; }
        auto h = HAND.find(name);
        try {
            if (h != HAND.end()) r = h->second(a, cb);
            else if (starts(name, "_ZN3fmt")) { // message formatting: the text is not modelled
                if (cb->hasStructRetAttr() && cb->getParamStructRetType(0) && DL->getTypeAllocSize(cb->getParamStructRetType(0)) == 32) { u64 p = a[0].lo; Type *i64 = Type::getInt64Ty(M->getContext()); store(p, vc(64, p + 16), i64); store(p + 8, vc(64, 0), i64); store(p + 16, vc(8, 0), Type::getInt8Ty(M->getContext())); }
                r = cb->getType()->isVoidTy() ? Val() : zeroOf(cb->getType());
            } else {
                if (!fa) fa = native_sym(name);
                if (!fa) UNSUP("undefined function " + demang(name));
                r = native_call(fa, name, a, cb);
            }
        } catch (Thrown &t) { thrown = true; te = t; }
        catch (std::bad_alloc &) { thrown = true; auto ep = new std::exception_ptr(std::current_exception()); te = {*(u64 *)ep, (u64)&typeid(std::bad_alloc)}; }
        if (thrown) { if (EXCS.count(te.obj)) unwind(te.obj); else do_throw(te.obj, te.ti); return; }
    }
    finish_call(ST.back(), n, r);
}

// native code deleting memory of the simulated heap must go through the simulation
extern "C" void sx_native_delete(void *p) { if (in_arena((u64)p)) { auto it = OBJ.find((u64)p); if (it != OBJ.end()) { obj_free(it->second); liveHeap--; } } else free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (in_arena((u64)p)) sx_native_delete(p); else free(p); }
void operator delete(void *p, size_t) noexcept { if (in_arena((u64)p)) sx_native_delete(p); else free(p); }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void *p) noexcept { if (in_arena((u64)p)) sx_native_delete(p); else free(p); }
void operator delete[](void *p, size_t) noexcept { if (in_arena((u64)p)) sx_native_delete(p); else free(p); }
