// ------------------------------------------------------------------ integer operations
static int64_t sext64(u64 v, unsigned bits) { return bits >= 64 ? (int64_t)v : (int64_t)(v << (64 - bits)) >> (64 - bits); }
static Val blob_slice(const Val &v, unsigned from, unsigned n) { // bytes
    std::vector<Val> b; auto w = to_bytes(v, v.bits / 8);
    for (unsigned i = 0; i < n; i++) b.push_back(w[from + i]);
    return norm_bytes(b);
}
static bool bytesy(const Val &v) { return v.k == BLOB || isReal(v); }
static Val trunc_val(const Val &v, unsigned bits) {
    if (v.bits == bits) return v;
    if (v.k == UNDEF) return vundef(bits);
    if (v.k == CONC) return vc(bits, v.lo, v.hi);
    if (bytesy(v)) { if (bits % 8) { Val b = blob_slice(v, 0, (bits + 7) / 8); return trunc_val(b, bits); } return blob_slice(v, 0, bits / 8); }
    if (v.sk == SBOOL) return v;
    if (bits == 1) return simp_bv(SBOOL, 1, Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, asBV(v)), zbvn(1, 1)));
    return simp_bv(SBV, bits, Z3_mk_extract(Z, bits - 1, 0, asBV(v)));
}
static Val zext_val(const Val &v, unsigned bits) {
    if (v.k == UNDEF) return vundef(bits);
    if (v.k == CONC) return vc(bits, v.lo, v.hi);
    if (bytesy(v)) { auto b = to_bytes(v, v.bits / 8); while (b.size() < bits / 8) b.push_back(vc(8, 0)); return norm_bytes(b); }
    if (v.sk == SBOOL) return vs(SBV, bits, Z3_mk_ite(Z, v.e, zbvn(bits, 1), zbvn(bits, 0)));
    return simp_bv(SBV, bits, Z3_mk_zero_ext(Z, bits - v.bits, asBV(v)));
}
static Val sext_val(const Val &v, unsigned bits);
typedef unsigned __int128 u128; typedef __int128 i128;
static u128 w128(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static i128 s128(const Val &v) { u128 x = w128(v); unsigned b = v.bits; if (b >= 128) return (i128)x; return (i128)(x << (128 - b)) >> (128 - b); }
static Val vw(unsigned bits, u128 x) { return vc(bits, (u64)x, (u64)(x >> 64)); }
// An integer congruent to bit-vector e modulo 2^bits, with its range; used to keep conversions linear and divisions narrow.
struct IRep { Z3_ast t; i128 lo, hi; bool ok; };
static bool bvnum(Z3_ast e, u64 &v) { return Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST && Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e)) <= 64 && Z3_get_numeral_uint64(Z, e, (uint64_t *)&v); }
static Z3_ast zint(int64_t v) { return Z3_mk_int64(Z, v, Z3_mk_int_sort(Z)); }
static IRep irep(Z3_ast e, int depth = 0) {
    IRep bad{nullptr, 0, 0, false}; u64 v;
    unsigned n = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e));
    if (n > 64 || depth > 60) return bad;
    if (bvnum(e, v)) { int64_t x = n == 64 ? (int64_t)v : (int64_t)(v << (64 - n)) >> (64 - n); return {zint(x), x, x, true}; }
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return bad;
    Z3_app a = Z3_to_app(Z, e); Z3_func_decl d = Z3_get_app_decl(Z, a); unsigned k = Z3_get_app_num_args(Z, a);
    auto arg = [&](unsigned q) { return irep(Z3_get_app_arg(Z, a, q), depth + 1); };
    const i128 LIM = (i128)1 << 62;
    switch (Z3_get_decl_kind(Z, d)) {
    case Z3_OP_UNINTERPRETED: if (k == 0 && n <= 48) return {Z3_mk_bv2int(Z, e, false), 0, ((i128)1 << n) - 1, true}; return bad;
    case Z3_OP_ZERO_EXT: { IRep r = arg(0); unsigned m = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, Z3_get_app_arg(Z, a, 0))); if (r.ok && r.lo >= 0 && r.hi < ((i128)1 << m)) return r; return bad; }
    case Z3_OP_CONCAT: {
        for (unsigned q = 0; q + 1 < k; q++) { u64 z; if (!bvnum(Z3_get_app_arg(Z, a, q), z) || z) return bad; }
        Z3_ast x = Z3_get_app_arg(Z, a, k - 1); IRep r = irep(x, depth + 1); unsigned m = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
        if (r.ok && r.lo >= 0 && r.hi < ((i128)1 << m)) return r;
        return bad; }
    case Z3_OP_BADD: { IRep s{zint(0), 0, 0, true}; for (unsigned q = 0; q < k; q++) { IRep r = arg(q); if (!r.ok) return bad; s.t = q ? zadd(s.t, r.t) : r.t; s.lo += r.lo; s.hi += r.hi; if (s.lo < -LIM || s.hi > LIM) return bad; } return s; }
    case Z3_OP_BSUB: { IRep s = arg(0); for (unsigned q = 1; q < k && s.ok; q++) { IRep r = arg(q); if (!r.ok) return bad; s.t = zsub(s.t, r.t); s.lo -= r.hi; s.hi -= r.lo; if (s.lo < -LIM || s.hi > LIM) return bad; } return s; }
    case Z3_OP_BNEG: { IRep r = arg(0); if (!r.ok) return bad; return {Z3_mk_unary_minus(Z, r.t), -r.hi, -r.lo, true}; }
    case Z3_OP_BMUL: { IRep s = arg(0); for (unsigned q = 1; q < k && s.ok; q++) { IRep r = arg(q); if (!r.ok) return bad;
            if ((s.lo < -(1ll << 31) || s.hi > (1ll << 31)) && r.lo != r.hi) return bad;
            i128 c[4] = {s.lo * r.lo, s.lo * r.hi, s.hi * r.lo, s.hi * r.hi}; s.t = zmul(s.t, r.t); s.lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])); s.hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3])); if (s.lo < -LIM || s.hi > LIM) return bad; } return s; }
    case Z3_OP_ITE: { IRep x = arg(1), y = arg(2); if (!x.ok || !y.ok) return bad; return {Z3_mk_ite(Z, Z3_get_app_arg(Z, a, 0), x.t, y.t), std::min(x.lo, y.lo), std::max(x.hi, y.hi), true}; }
    case Z3_OP_SIGN_EXT: { IRep r = arg(0); unsigned m = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, Z3_get_app_arg(Z, a, 0))); if (r.ok && r.lo >= -((i128)1 << (m - 1)) && r.hi < ((i128)1 << (m - 1))) return r; return bad; }
    case Z3_OP_EXTRACT: if (Z3_get_decl_int_parameter(Z, d, 1) == 0) { IRep r = arg(0); if (r.ok && r.lo >= 0 && r.hi >= ((i128)1 << n) && n <= 16) return {Z3_mk_bv2int(Z, e, false), 0, ((i128)1 << n) - 1, true}; return r; }
        if (n <= 16) return {Z3_mk_bv2int(Z, e, false), 0, ((i128)1 << n) - 1, true};
        return bad;
    default: return bad;
    }
}
static bool irange(Z3_ast e, bool sgn, IRep &r) { // e as a mathematical integer
    unsigned n = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e)); r = irep(e); if (!r.ok) return false;
    return sgn ? r.lo >= -((i128)1 << (n - 1)) && r.hi < ((i128)1 << (n - 1)) : r.lo >= 0 && r.hi < ((i128)1 << n);
}
// x op y on n bits, computed on fewer when both ranges allow it
static Z3_ast narrow_div(unsigned op, Z3_ast x, Z3_ast y, unsigned n) {
    bool sgn = op == Instruction::SDiv || op == Instruction::SRem; IRep a, b;
    if (n < 16 || !irange(x, sgn, a) || !irange(y, sgn, b)) return nullptr;
    { int64_t p, q; Z3_ast s = Z3_simplify(Z, a.t), t = Z3_simplify(Z, b.t); // sums that cancel
      if (Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST && Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST && Z3_get_numeral_int64(Z, s, &p) && Z3_get_numeral_int64(Z, t, &q) && q && !(q == -1 && p == INT64_MIN)) {
          bool div = op == Instruction::SDiv || op == Instruction::UDiv; return zbvn(n, (u64)(div ? p / q : p % q), (div ? p / q : p % q) < 0 ? ~0ull : 0); } }
    i128 m = std::max(std::max(a.lo < 0 ? -a.lo : a.lo, a.hi), std::max(b.lo < 0 ? -b.lo : b.lo, b.hi)); unsigned w = 2; while (((i128)1 << (w - 1)) <= m) w++;
    if (w + 2 >= n) return nullptr;
    Z3_ast p = Z3_mk_extract(Z, w - 1, 0, x), q = Z3_mk_extract(Z, w - 1, 0, y);
    if (a.lo >= 0 && b.lo >= 0) sgn = false;
    bool div = op == Instruction::SDiv || op == Instruction::UDiv;
    if (!sgn) return Z3_mk_zero_ext(Z, n - w, div ? Z3_mk_bvudiv(Z, p, q) : Z3_mk_bvurem(Z, p, q));
    Z3_ast r = div ? Z3_mk_bvsdiv(Z, p, q) : Z3_mk_bvsrem(Z, p, q), off = zbvn(w, (u64)1 << (w - 1));
    return Z3_mk_bvsub(Z, Z3_mk_zero_ext(Z, n - w, Z3_mk_bvadd(Z, r, off)), zbvn(n, (u64)1 << (w - 1)));
}

static Val sext_val(const Val &v, unsigned bits) {
    if (v.k == UNDEF) return vundef(bits);
    if (v.k == CONC) { int64_t x = sext64(v.lo, v.bits); if (v.bits > 64) UNSUP("sext of wide"); return vc(bits, x, x < 0 ? ~0ull : 0); }
    if (v.sk == SBOOL) return vs(SBV, bits, Z3_mk_ite(Z, v.e, zbvn(bits, ~0ull, ~0ull), zbvn(bits, 0)));
    { IRep r; Z3_ast e = asBV(v); unsigned n = v.bits; // a known range keeps this a sum (the simplifier would expand a sign extension bit by bit)
      if (n >= 8 && n <= 32 && irange(e, true, r)) {
          if (r.lo >= 0) return simp_bv(SBV, bits, Z3_mk_zero_ext(Z, bits - n, e));
          i128 off = 1; while (off < -r.lo) off *= 2;
          if (r.hi + off < ((i128)1 << n)) return simp_bv(SBV, bits, Z3_mk_bvsub(Z, Z3_mk_zero_ext(Z, bits - n, Z3_simplify(Z, Z3_mk_bvadd(Z, e, zbvn(n, (u64)off)))), zbvn(bits, (u64)off)));
      } }
    return simp_bv(SBV, bits, Z3_mk_sign_ext(Z, bits - v.bits, asBV(v)));
}
static Val binop(unsigned op, const Val &a, const Val &b) {
    unsigned n = a.bits;
    if (a.k == CONC && b.k == CONC) {
        u128 x = w128(a), y = w128(b);
        switch (op) {
        case Instruction::Add: return vw(n, x + y);
        case Instruction::Sub: return vw(n, x - y);
        case Instruction::Mul: return vw(n, x * y);
        case Instruction::UDiv: if (!y) { cex_here("div0", "integer division by zero"); end_path("done-error"); } return vw(n, x / y);
        case Instruction::URem: if (!y) { cex_here("div0", "integer division by zero"); end_path("done-error"); } return vw(n, x % y);
        case Instruction::SDiv: case Instruction::SRem: {
            if (!y) { cex_here("div0", "integer division by zero"); end_path("done-error"); }
            i128 p = s128(a), q = s128(b);
            if (q == -1 && n <= 64 && p == -((i128)1 << (n - 1))) { cex_here("div0", "integer division overflow"); end_path("done-error"); }
            return vw(n, op == Instruction::SDiv ? (u128)(p / q) : (u128)(p % q)); }
        case Instruction::And: return vw(n, x & y);
        case Instruction::Or: return vw(n, x | y);
        case Instruction::Xor: return vw(n, x ^ y);
        case Instruction::Shl: if (y >= n) return vundef(n); return vw(n, x << (unsigned)y);
        case Instruction::LShr: if (y >= n) return vundef(n); return vw(n, x >> (unsigned)y);
        case Instruction::AShr: if (y >= n) return vundef(n); return vw(n, (u128)(s128(a) >> (unsigned)y));
        }
    }
    // cheap identities that also keep undefined / opaque values harmless
    if (op == Instruction::And && ((a.conc() && !w128(a)) || (b.conc() && !w128(b)))) return vc(n, 0);
    if (op == Instruction::Mul && ((a.conc() && !w128(a)) || (b.conc() && !w128(b)))) return vc(n, 0);
    if ((op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add) && a.conc() && !w128(a)) return b;
    if ((op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add || op == Instruction::Sub || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && b.conc() && !w128(b)) return a;
    if (n == 1 && op == Instruction::Or && ((a.conc() && a.lo) || (b.conc() && b.lo))) return vc(1, 1);
    if (a.k == UNDEF || b.k == UNDEF) return vundef(n);
    if (bytesy(a) || bytesy(b)) {
        if (b.conc() && b.lo % 8 == 0 && b.lo < n && (op == Instruction::LShr || op == Instruction::Shl)) {
            auto w = to_bytes(a, n / 8); std::vector<Val> r(n / 8, vc(8, 0)); unsigned sh = b.lo / 8;
            for (unsigned i = 0; i < n / 8; i++) { if (op == Instruction::LShr) { if (i + sh < n / 8) r[i] = w[i + sh]; } else if (i >= sh) r[i] = w[i - sh]; }
            return norm_bytes(r);
        }
        if (op == Instruction::Or || op == Instruction::Add || op == Instruction::Xor) {
            auto x = to_bytes(a, n / 8), y = to_bytes(b, n / 8); std::vector<Val> r; bool ok = true;
            for (unsigned i = 0; i < n / 8; i++) { if (x[i].k == CONC && !x[i].lo) r.push_back(y[i]); else if (y[i].k == CONC && !y[i].lo) r.push_back(x[i]); else ok = false; }
            if (ok) return norm_bytes(r);
        }
        if (op == Instruction::And && b.conc()) {
            auto x = to_bytes(a, n / 8), y = to_bytes(b, n / 8); std::vector<Val> r; bool ok = true;
            for (unsigned i = 0; i < n / 8; i++) { if (y[i].lo == 0) r.push_back(vc(8, 0)); else if (y[i].lo == 255) r.push_back(x[i]); else ok = false; }
            if (ok) return norm_bytes(r);
            // |x| through a sign-bit mask
            if (isReal(a) && ((n == 32 && b.lo == 0x7fffffff) || (n == 64 && b.lo == 0x7fffffffffffffffull)))
                return vs(SREAL, n, Z3_mk_ite(Z, Z3_mk_ge(Z, a.e, zrat(0)), a.e, Z3_mk_unary_minus(Z, a.e)));
        }
        UNSUP("integer arithmetic on the bits of a real-abstracted float");
    }
    if (n == 1) {
        Z3_ast x = asBool(a), y = asBool(b);
        switch (op) {
        case Instruction::And: case Instruction::Mul: return simp_bv(SBOOL, 1, zand(x, y));
        case Instruction::Or: return simp_bv(SBOOL, 1, zor(x, y));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return simp_bv(SBOOL, 1, Z3_mk_xor(Z, x, y));
        default: UNSUP("i1 operation");
        }
    }
    Z3_ast x = asBV(a), y = asBV(b), r = nullptr;
    switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (b.k != CONC || !w128(b)) { Val z = simp_bv(SBOOL, 1, Z3_mk_eq(Z, y, zbvn(n, 0)));
            if (z.conc() ? z.lo : decide(z.e)) { cex_here("div0", "integer division by zero"); end_path("done-error"); } }
        if (Z3_ast nd = narrow_div(op, x, y, n)) { r = nd; break; }
        r = op == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : op == Instruction::URem ? Z3_mk_bvurem(Z, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    default: UNSUP("binary operation");
    }
    return simp_bv(SBV, n, r);
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
    if (a.k == CONC && b.k == CONC) {
        u128 x = w128(a), y = w128(b); i128 s = s128(a), t = s128(b); bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
        case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
        }
        return vc(1, r);
    }
    if (a.k == UNDEF || b.k == UNDEF) return vundef(1);
    if (isReal(a) && b.conc() && b.lo == 0 && (p == CmpInst::ICMP_SLT)) return simp_bv(SBOOL, 1, Z3_mk_lt(Z, a.e, zrat(0)));
    if (isReal(a) && b.conc() && sext64(b.lo, b.bits) == -1 && (p == CmpInst::ICMP_SGT)) return simp_bv(SBOOL, 1, Z3_mk_ge(Z, a.e, zrat(0)));
    if (a.bits == 1) { Z3_ast x = asBool(a), y = asBool(b);
        if (p == CmpInst::ICMP_EQ) return simp_bv(SBOOL, 1, Z3_mk_iff(Z, x, y));
        if (p == CmpInst::ICMP_NE) return simp_bv(SBOOL, 1, Z3_mk_xor(Z, x, y));
        Val aa = zext_val(a, 8), bb = zext_val(b, 8); if (p >= CmpInst::ICMP_SGT) { aa = sext_val(a, 8); bb = sext_val(b, 8); } return icmp(p, aa, bb); }
    if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && isReal(a) && isReal(b)) { Z3_ast e = Z3_mk_eq(Z, a.e, b.e); return simp_bv(SBOOL, 1, p == CmpInst::ICMP_EQ ? e : znot(e)); }
    Z3_ast x = asBV(a), y = asBV(b), r = nullptr;
    switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = znot(Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    }
    return simp_bv(SBOOL, 1, r);
}
// enumerate the feasible values of a bit-vector by forking
static u64 concretize(const Val &v, const char *what) {
    if (v.k == CONC) return v.lo;
    if (v.k == UNDEF) { mem_error(std::string("uninitialised value used as ") + what); }
    if (v.k == SYM && v.sk == SBOOL) return decide(v.e);
    Z3_ast e = Z3_simplify(Z, asBV(v));
    for (long n = 0;; n++) {
        if (n > MAXENUM) UNSUP(std::string("too many values for ") + what);
        if (!ensure_model()) UNSUP("undecided path condition");
        Z3_ast mv; Z3_model_eval(Z, MODEL, e, true, &mv); mv = Z3_simplify(Z, mv);
        uint64_t u = 0; Z3_get_numeral_uint64(Z, mv, &u);
        Z3_ast eq = Z3_mk_eq(Z, e, zbvn(v.bits, u));
        Z3_model m2 = nullptr; Z3_lbool r = check_with(znot(eq), &m2);
        if (r == Z3_L_FALSE) { assume(eq); return u; }
        INC(branches);
        if (fork_path()) { assume(eq); return u; }
        MODEL = r == Z3_L_TRUE ? m2 : nullptr; assume(znot(eq));
    }
}

// ------------------------------------------------------------------ float operations
static double cfop(unsigned op, double a, double b) {
    switch (op) { case Instruction::FAdd: return a + b; case Instruction::FSub: return a - b; case Instruction::FMul: return a * b; case Instruction::FDiv: return a / b; case Instruction::FRem: return fmod(a, b); }
    return 0;
}
static Val fbin(unsigned op, const Val &a, const Val &b) {
    unsigned n = a.bits;
    if (a.k == CONC && b.k == CONC) {
        if (n == 64) return vdouble(cfop(op, fval(a), fval(b)));
        if (n == 32) { float x = fval(a), y = fval(b), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); break; } return vfloat(r); }
        long double x = ldval(a), y = ldval(b), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; } return vld(r);
    }
    if (a.k == UNDEF || b.k == UNDEF) return vundef(n);
    if (isReal(a) || isReal(b)) {
        const Val *o = a.k == CONC ? &a : b.k == CONC ? &b : nullptr;
        double c = o ? (n == 80 ? (double)ldval(*o) : fval(*o)) : 0;
        if (o && std::isnan(c)) return *o;
        if (o && std::isinf(c)) {
            if (op == Instruction::FAdd || (op == Instruction::FSub && o == &a)) return *o;
            if (op == Instruction::FSub) return n == 32 ? vfloat(-c) : vdouble(-c);
            if (op == Instruction::FDiv && o == &b) return n == 32 ? vfloat(0) : vdouble(0);
            UNSUP("infinity times a real-abstracted float");
        }
        if (op == Instruction::FMul && o && c == 0) return n == 32 ? vfloat(0) : vdouble(0);
        if (op == Instruction::FMul && o && c == 1) return o == &a ? b : a;
        if ((op == Instruction::FAdd) && o && c == 0) return o == &a ? b : a;
        if ((op == Instruction::FSub || op == Instruction::FDiv) && o == &b && c == (op == Instruction::FDiv ? 1 : 0)) return a;
        Z3_ast x = asReal(a), y = asReal(b), r = nullptr;
        if (op == Instruction::FMul && x == y && !DEFS.empty()) { auto it = DEFS.find(x); if (it != DEFS.end()) return vs(SREAL, n, it->second.x); } // the square of a root
        switch (op) {
        case Instruction::FAdd: r = zadd(x, y); break;
        case Instruction::FSub: r = zsub(x, y); break;
        case Instruction::FMul: r = zmul(x, y); break;
        case Instruction::FDiv: {
            if (o == &b) { if (c == 0) end_path("excluded", "floating-point division of a real-abstracted float by zero"); r = zmul(x, Z3_simplify(Z, Z3_mk_div(Z, zrat(1), y))); break; }
            if (decide(Z3_mk_eq(Z, y, zrat(0)))) end_path("excluded", "floating-point division by a real-abstracted zero");
            r = Z3_mk_div(Z, x, y); break; }
        default: UNSUP("frem on a real-abstracted float");
        }
        if (o == nullptr || op != Instruction::FAdd) r = Z3_simplify(Z, r);
        return vs(SREAL, n, r);
    }
    Z3_ast x = asFP(a), y = asFP(b), r = nullptr;
    switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(Z, zrm(), x, y); break; case Instruction::FSub: r = Z3_mk_fpa_sub(Z, zrm(), x, y); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(Z, zrm(), x, y); break; case Instruction::FDiv: r = Z3_mk_fpa_div(Z, zrm(), x, y); break;
    default: UNSUP("frem on a symbolic float");
    }
    return vs(SFP, n, Z3_simplify(Z, r));
}
static Val fcmp(unsigned p, const Val &a, const Val &b) {
    if (p == CmpInst::FCMP_TRUE) return vc(1, 1);
    if (p == CmpInst::FCMP_FALSE) return vc(1, 0);
    if (a.k == UNDEF || b.k == UNDEF) return vundef(1);
    bool ord = true; // result on unordered operands: p & 8 (uno)
    if (a.k == CONC && b.k == CONC) {
        long double x = a.bits == 80 ? ldval(a) : fval(a), y = b.bits == 80 ? ldval(b) : fval(b);
        if (std::isnan(x) || std::isnan(y)) return vc(1, (p & 8) ? 1 : 0);
        bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
        if ((p & 7) == 7) r = true;
        return vc(1, r);
    }
    (void)ord;
    if (isReal(a) || isReal(b)) {
        const Val *o = a.k == CONC ? &a : b.k == CONC ? &b : nullptr;
        if (o) { double c = o->bits == 80 ? (double)ldval(*o) : fval(*o);
            if (std::isnan(c)) return vc(1, (p & 8) ? 1 : 0);
            if (std::isinf(c)) { bool agtb = (o == &b) ? c < 0 : c > 0; return vc(1, ((p & 2) && agtb) || ((p & 4) && !agtb) || (p & 7) == 7); } }
        if ((p & 7) == 7) return vc(1, 1);
        if ((p & 7) == 0) return vc(1, 0);
        Z3_ast x = asReal(a), y = asReal(b), r;
        switch (p & 7) {
        case 1: r = Z3_mk_eq(Z, x, y); break; case 2: r = Z3_mk_gt(Z, x, y); break; case 3: r = Z3_mk_ge(Z, x, y); break;
        case 4: r = Z3_mk_lt(Z, x, y); break; case 5: r = Z3_mk_le(Z, x, y); break; default: r = znot(Z3_mk_eq(Z, x, y));
        }
        return simp_bv(SBOOL, 1, r);
    }
    Z3_ast x = asFP(a), y = asFP(b), un = zor(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)), r;
    switch (p & 7) {
    case 0: r = Z3_mk_false(Z); break; case 7: r = Z3_mk_true(Z); break;
    case 1: r = Z3_mk_fpa_eq(Z, x, y); break; case 2: r = Z3_mk_fpa_gt(Z, x, y); break; case 3: r = Z3_mk_fpa_geq(Z, x, y); break;
    case 4: r = Z3_mk_fpa_lt(Z, x, y); break; case 5: r = Z3_mk_fpa_leq(Z, x, y); break; default: r = znot(Z3_mk_fpa_eq(Z, x, y));
    }
    r = (p & 8) ? zor(un, r) : zand(znot(un), r);
    return simp_bv(SBOOL, 1, r);
}
static Val fneg(const Val &a) {
    if (a.k == CONC) { if (a.bits == 80) return vld(-ldval(a)); return a.bits == 32 ? vfloat(-(float)fval(a)) : vdouble(-fval(a)); }
    if (a.k == UNDEF) return a;
    if (isReal(a)) return vs(SREAL, a.bits, Z3_simplify(Z, Z3_mk_unary_minus(Z, a.e)));
    return vs(SFP, a.bits, Z3_mk_fpa_neg(Z, asFP(a)));
}
static Val fabsv(const Val &a) {
    if (a.k == CONC) { if (a.bits == 80) return vld(fabsl(ldval(a))); return a.bits == 32 ? vfloat(fabsf(fval(a))) : vdouble(fabs(fval(a))); }
    if (a.k == UNDEF) return a;
    if (isReal(a)) return vs(SREAL, a.bits, Z3_simplify(Z, Z3_mk_ite(Z, Z3_mk_ge(Z, a.e, zrat(0)), a.e, Z3_mk_unary_minus(Z, a.e))));
    return vs(SFP, a.bits, Z3_mk_fpa_abs(Z, asFP(a)));
}
static Val fconv(const Val &a, unsigned bits) { // fpext / fptrunc
    if (a.bits == bits) return a;
    if (a.k == CONC) { long double x = a.bits == 80 ? ldval(a) : fval(a); if (bits == 80) return vld(x); return bits == 32 ? vfloat(a.bits == 64 ? (float)fval(a) : (float)x) : vdouble((double)x); }
    if (a.k == UNDEF) return vundef(bits);
    if (isReal(a)) return vs(SREAL, bits, a.e);
    return vs(SFP, bits, Z3_simplify(Z, Z3_mk_fpa_to_fp_float(Z, zrm(), asFP(a), zfp(bits))));
}
static Val fofbits(const Val &a) { // value loaded / bitcast as float
    if (a.k == SYM && a.sk == SBV) return vs(SFP, a.bits, Z3_simplify(Z, asFP(a)));
    return a;
}
// rounding of reals: kinds r (half away), f (floor), c (ceil), t (trunc), e (half even)
static Z3_ast round_cell(Z3_ast x, double v, char kind) { // condition "round(x) == v"
    Z3_ast lo, hi;
    switch (kind) {
    case 'f': return zand(Z3_mk_ge(Z, x, zrat(v)), Z3_mk_lt(Z, x, zrat(v + 1)));
    case 'c': return zand(Z3_mk_gt(Z, x, zrat(v - 1)), Z3_mk_le(Z, x, zrat(v)));
    case 't': if (v > 0) return round_cell(x, v, 'f'); if (v < 0) return round_cell(x, v, 'c');
        return zand(Z3_mk_gt(Z, x, zrat(-1)), Z3_mk_lt(Z, x, zrat(1)));
    case 'r': lo = zrat(v - 0.5); hi = zrat(v + 0.5);
        return zand(v > 0 ? Z3_mk_ge(Z, x, lo) : Z3_mk_gt(Z, x, lo), v < 0 ? Z3_mk_le(Z, x, hi) : Z3_mk_lt(Z, x, hi));
    default: lo = zrat(v - 0.5); hi = zrat(v + 0.5); { bool even = std::fmod(v, 2) == 0;
        return zand(even ? Z3_mk_ge(Z, x, lo) : Z3_mk_gt(Z, x, lo), even ? Z3_mk_le(Z, x, hi) : Z3_mk_lt(Z, x, hi)); }
    }
}
static double cround(double d, char kind) { switch (kind) { case 'f': return floor(d); case 'c': return ceil(d); case 't': return trunc(d); case 'r': return round(d); default: return nearbyint(d); } }
static Val round_real(const Val &a, char kind) {
    unsigned bits = a.bits;
    Z3_ast x = Z3_simplify(Z, a.e);
    activate(x);
    for (long n = 0;; n++) {
        if (!ensure_model()) UNSUP("undecided path condition");
        Z3_ast mv; Z3_model_eval(Z, MODEL, x, true, &mv); double d = num_double(mv);
        double v = cround(d, kind);
        Z3_ast c = Z3_simplify(Z, round_cell(x, v, kind));
        int ok = model_bool(c);
        for (int k = -1; k <= 1 && ok != 1; k++) { Z3_ast c2 = Z3_simplify(Z, round_cell(x, v + k, kind)); if (model_bool(c2) == 1) { c = c2; v += k; ok = 1; } }
        if (ok != 1) UNSUP("rounding of an irrational value");
        if (n == 0) { // wide range: keep the result symbolic
            Z3_ast far = zor(Z3_mk_gt(Z, x, zrat(v + 80)), Z3_mk_lt(Z, x, zrat(v - 80)));
            if (check_with(far, nullptr) != Z3_L_FALSE) {
                Z3_ast one = zrat(1), half = zrat(0.5), r;
                auto flo = [&](Z3_ast y) { return Z3_mk_int2real(Z, Z3_mk_real2int(Z, y)); };
                auto cei = [&](Z3_ast y) { return Z3_mk_unary_minus(Z, flo(Z3_mk_unary_minus(Z, y))); };
                (void)one;
                Z3_ast pos = Z3_mk_ge(Z, x, zrat(0));
                switch (kind) {
                case 'f': r = flo(x); break; case 'c': r = cei(x); break;
                case 't': r = Z3_mk_ite(Z, pos, flo(x), cei(x)); break;
                case 'r': r = Z3_mk_ite(Z, pos, flo(zadd(x, half)), cei(zsub(x, half))); break;
                default: UNSUP("wide-range rint");
                }
                return vs(SREAL, bits, Z3_simplify(Z, r));
            }
        }
        if (n > MAXENUM) UNSUP("too many rounded values");
        Z3_model m2 = nullptr; Z3_lbool r = check_with(znot(c), &m2);
        if (r == Z3_L_FALSE) { assume(c); return bits == 32 ? vfloat(v) : vdouble(v); }
        INC(branches);
        if (fork_path()) { assume(c); return bits == 32 ? vfloat(v) : vdouble(v); }
        MODEL = r == Z3_L_TRUE ? m2 : nullptr; assume(znot(c));
    }
}
static Val froundop(const Val &a, char kind) {
    if (a.k == CONC) { if (a.bits == 80) UNSUP("long double rounding"); double d = cround(fval(a), kind); return a.bits == 32 ? vfloat(d) : vdouble(d); }
    if (a.k == UNDEF) return a;
    if (isReal(a)) return round_real(a, kind);
    Z3_ast rm = kind == 'f' ? Z3_mk_fpa_rtn(Z) : kind == 'c' ? Z3_mk_fpa_rtp(Z) : kind == 't' ? Z3_mk_fpa_rtz(Z) : kind == 'r' ? Z3_mk_fpa_rna(Z) : Z3_mk_fpa_rne(Z);
    return vs(SFP, a.bits, Z3_simplify(Z, Z3_mk_fpa_round_to_integral(Z, rm, asFP(a))));
}
static Val fptoint(const Val &a0, unsigned bits, bool sgn) {
    if (a0.k == UNDEF) return vundef(bits);
    if (a0.k == CONC) {
        long double d = truncl(a0.bits == 80 ? ldval(a0) : (long double)fval(a0));
        long double lo = sgn ? -powl(2, bits - 1) : 0, hi = powl(2, sgn ? bits - 1 : bits);
        if (!(d >= lo && d < hi)) { note("info", "float to integer conversion out of range (treated as undefined) at " + here()); return vundef(bits); }
        if (sgn) return vw(bits, (u128)(i128)d); return vw(bits, (u128)d);
    }
    if (isReal(a0)) {
        Val r = round_real(a0, 't');
        if (r.k == CONC) return fptoint(r, bits, sgn);
        // wide: integer theory to bit-vector
        double lim = ldexp(1.0, bits - (sgn ? 1 : 0));
        Z3_ast in = zand(Z3_mk_lt(Z, r.e, zrat(lim)), sgn ? Z3_mk_ge(Z, r.e, zrat(-lim)) : Z3_mk_ge(Z, r.e, zrat(0)));
        if (!decide(in)) { note("info", "float to integer conversion out of range (treated as undefined) at " + here()); return vundef(bits); }
        return vs(SBV, bits, Z3_mk_int2bv(Z, bits, Z3_mk_real2int(Z, r.e)));
    }
    Z3_ast f = asFP(a0);
    return vs(SBV, bits, Z3_simplify(Z, sgn ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), f, bits) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), f, bits)));
}
static bool REALMODE = true; // symbolic integers converted to float become reals
static Val inttofp(const Val &a, unsigned bits, bool sgn) {
    if (a.k == UNDEF) return vundef(bits);
    if (a.k == CONC) {
        if (bits == 80) return vld(sgn ? (long double)s128(a) : (long double)w128(a));
        if (bits == 32) return vfloat(sgn ? (float)(int64_t)s128(a) : (a.bits > 64 ? (float)w128(a) : (float)a.lo));
        return vdouble(sgn ? (double)(int64_t)s128(a) : (a.bits > 64 ? (double)w128(a) : (double)a.lo));
    }
    if (a.k == SYM && a.sk == SBOOL) { // two-valued: stay linear
        double one = sgn ? -1 : 1;
        if (REALMODE) return vs(SREAL, bits, Z3_mk_ite(Z, a.e, zrat(one), zrat(0)));
        return vs(SFP, bits, Z3_mk_ite(Z, a.e, asFP(bits == 32 ? vfloat(one) : vdouble(one)), asFP(bits == 32 ? vfloat(0) : vdouble(0))));
    }
    if (REALMODE) {
        Z3_ast e = asBV(a); IRep r;
        if (irange(e, sgn, r)) return vs(SREAL, bits, Z3_simplify(Z, Z3_mk_int2real(Z, r.t)));
        return vs(SREAL, bits, Z3_simplify(Z, Z3_mk_int2real(Z, Z3_mk_bv2int(Z, e, sgn))));
    }
    return vs(SFP, bits, Z3_simplify(Z, sgn ? Z3_mk_fpa_to_fp_signed(Z, zrm(), asBV(a), zfp(bits)) : Z3_mk_fpa_to_fp_unsigned(Z, zrm(), asBV(a), zfp(bits))));
}
static std::map<Z3_ast, Z3_ast> SQRTS;
static long FRESH = 0;
static Val fsqrt(const Val &a) {
    if (a.k == CONC) return a.bits == 32 ? vfloat(sqrtf(fval(a))) : vdouble(sqrt(fval(a)));
    if (a.k == UNDEF) return a;
    if (!isReal(a)) return vs(SFP, a.bits, Z3_mk_fpa_sqrt(Z, zrm(), asFP(a)));
    Z3_ast x = Z3_simplify(Z, a.e);
    if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST) { double d = num_double(x); if (d >= 0) return a.bits == 32 ? vfloat(sqrt(d)) : vdouble(sqrt(d)); }
    auto it = SQRTS.find(x);
    if (it != SQRTS.end()) return vs(SREAL, a.bits, it->second);
    Z3_ast r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("sqrt!" + std::to_string(FRESH++)).c_str()), zreal());
    note("assumption", "arguments of sqrt on real-abstracted values are taken to be non-negative");
    assume(Z3_mk_ge(Z, r, zrat(0)));
    Z3_inc_ref(Z, r); Z3_inc_ref(Z, x); DEFS[r] = {Z3_mk_eq(Z, zmul(r, r), x), x, false}; DEFS_IDLE++; Z3_inc_ref(Z, DEFS[r].def);
    SQRTS[x] = r;
    return vs(SREAL, a.bits, r);
}
static Val ite_val(Z3_ast c, const Val &a, const Val &b, Type *t) { // scalar select
    if (a.k == AGG) { Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < a.agg->size(); i++) r.agg->push_back(ite_val(c, (*a.agg)[i], (*b.agg)[i], elemTy(t, i))); return r; }
    if (a.k == CONC && b.k == CONC && a.lo == b.lo && a.hi == b.hi) return a;
    if (a.k == SYM && b.k == SYM && a.e == b.e && a.sk == b.sk) return a;
    if (a.k == UNDEF && b.k == UNDEF) return a;
    if (t->isPointerTy() || a.k == UNDEF || b.k == UNDEF || a.k == BLOB || b.k == BLOB) return decide(c) ? a : b;
    if (a.bits == 1) return simp_bv(SBOOL, 1, Z3_mk_ite(Z, c, asBool(a), asBool(b)));
    if (isReal(a) || isReal(b)) {
        if ((a.k == CONC && !std::isfinite(fval(a))) || (b.k == CONC && !std::isfinite(fval(b)))) return decide(c) ? a : b;
        return vs(SREAL, a.bits, Z3_simplify(Z, Z3_mk_ite(Z, c, asReal(a), asReal(b))));
    }
    if (t->isFloatingPointTy() && REALMODE && a.k == CONC && b.k == CONC) {
        if (!std::isfinite(fval(a)) || !std::isfinite(fval(b))) return decide(c) ? a : b;
        return vs(SREAL, a.bits, Z3_mk_ite(Z, c, asReal(a), asReal(b)));
    }
    if (t->isFloatingPointTy()) return vs(SFP, a.bits, Z3_simplify(Z, Z3_mk_ite(Z, c, asFP(a), asFP(b))));
    return simp_bv(SBV, a.bits, Z3_mk_ite(Z, c, asBV(a), asBV(b)));
}

// ------------------------------------------------------------------ program
struct Inst { const Instruction *I; unsigned op; int dest; std::vector<int> ops; };
struct BInfo { std::vector<Inst> in; unsigned nphi = 0; };
struct FuncInfo { const Function *F; std::vector<BInfo> bb; DenseMap<const BasicBlock *, int> bidx; DenseMap<const Value *, int> slot; int nslots = 0; std::vector<Val> consts; int id; };
static DenseMap<const Function *, FuncInfo *> FINFO;
static DenseMap<const Value *, u64> GADDR; // globals and functions
static std::unordered_map<u64, const Function *> FADDR;
static std::unordered_map<std::string, u64> NATIVE;
static std::vector<const Function *> FLIST;

static u64 native_sym(const std::string &n) {
    auto it = NATIVE.find(n); if (it != NATIVE.end()) return it->second;
    void *p = dlsym(RTLD_DEFAULT, n.c_str()); NATIVE[n] = (u64)p; return (u64)p;
}
static u64 gaddr(const GlobalValue *g) {
    auto it = GADDR.find(g); if (it != GADDR.end()) return it->second;
    if (auto a = dyn_cast<GlobalAlias>(g)) { const Constant *c = a->getAliasee(); if (auto gv = dyn_cast<GlobalValue>(c->stripPointerCasts())) return GADDR[g] = gaddr(gv); UNSUP("alias"); }
    if (auto f = dyn_cast<Function>(g)) {
        u64 a = 0;
        if (f->isDeclaration()) a = native_sym(f->getName().str());
        if (!a) { a = FUN + 4096 + 64ull * FLIST.size(); FLIST.push_back(f); }
        FADDR[a] = f;
        return GADDR[g] = a;
    }
    auto v = cast<GlobalVariable>(g);
    if (v->isDeclaration()) {
        u64 a = native_sym(v->getName().str());
        if (!a) { // weak or special symbol: give it a zeroed block
            if (v->hasExternalWeakLinkage()) return GADDR[g] = 0;
            Obj *o = new_obj(glbTop, 256, 16, 'g', false); a = o->base;
        }
        return GADDR[g] = a;
    }
    Obj *o = new_obj(glbTop, DL->getTypeAllocSize(v->getValueType()), v->getAlign() ? v->getAlign()->value() : 16, 'g', false);
    return GADDR[g] = o->base;
}
static Val constval(const Constant *c);
static u64 gep_const(const GEPOperator *g) {
    Val b = constval(cast<Constant>(g->getPointerOperand())); u64 a = b.lo;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        int64_t idx = cast<ConstantInt>(it.getOperand())->getSExtValue();
        if (auto st = it.getStructTypeOrNull()) a += DL->getStructLayout(st)->getElementOffset(idx);
        else a += idx * (int64_t)it.getSequentialElementStride(*DL);
    }
    return a;
}
static Val constval(const Constant *c) {
    Type *t = c->getType();
    if (auto i = dyn_cast<ConstantInt>(c)) { const APInt &x = i->getValue(); return vc(x.getBitWidth(), x.getRawData()[0], x.getNumWords() > 1 ? x.getRawData()[1] : 0); }
    if (auto f = dyn_cast<ConstantFP>(c)) { APInt x = f->getValueAPF().bitcastToAPInt(); return vc(x.getBitWidth(), x.getRawData()[0], x.getNumWords() > 1 ? x.getRawData()[1] : 0); }
    if (isa<ConstantPointerNull>(c)) return vc(64, 0);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (isa<UndefValue>(c)) return undefOf(t); // includes poison
    if (auto g = dyn_cast<GlobalValue>(c)) return vc(64, gaddr(g));
    if (auto d = dyn_cast<ConstantDataSequential>(c)) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); i++) v.agg->push_back(constval(d->getElementAsConstant(i))); return v; }
    if (auto a = dyn_cast<ConstantAggregate>(c)) { Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < a->getNumOperands(); i++) v.agg->push_back(constval(a->getOperand(i))); return v; }
    if (auto e = dyn_cast<ConstantExpr>(c)) {
        if (auto g = dyn_cast<GEPOperator>(e)) return vc(64, gep_const(g));
        auto op = [&](unsigned i) { return constval(e->getOperand(i)); };
        switch (e->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::Trunc: return trunc_val(op(0), tbits(t));
        case Instruction::IntToPtr: return zext_val(trunc_val(op(0), std::min(64u, op(0).bits)), 64);
        case Instruction::ZExt: return zext_val(op(0), tbits(t));
        case Instruction::SExt: return sext_val(op(0), tbits(t));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
        case Instruction::ICmp: return icmp(e->getPredicate(), op(0), op(1));
        case Instruction::Select: return op(0).lo ? op(1) : op(2);
        default: if (Instruction::isBinaryOp(e->getOpcode())) return binop(e->getOpcode(), op(0), op(1));
        }
    }
    UNSUP("constant");
}
static FuncInfo *finfo(const Function *F) {
    auto it = FINFO.find(F); if (it != FINFO.end()) return it->second;
    auto fi = new FuncInfo; fi->F = F; fi->id = FINFO.size();
    for (auto &a : F->args()) fi->slot[&a] = fi->nslots++;
    for (auto &b : *F) { fi->bidx[&b] = fi->bidx.size(); for (auto &i : b) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++; }
    DenseMap<const Value *, int> ck;
    for (auto &b : *F) {
        BInfo bi;
        for (auto &i : b) {
            if (auto ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::var_annotation) { if (!isa<InvokeInst>(&i) && i.getType()->isVoidTy()) continue; } }
            Inst n; n.I = &i; n.op = i.getOpcode(); n.dest = i.getType()->isVoidTy() ? -1 : fi->slot[&i];
            if (isa<PHINode>(i)) bi.nphi++;
            for (auto &u : i.operands()) {
                Value *v = u.get(); int s = 1 << 30;
                if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {}
                else if (auto c = dyn_cast<Constant>(v)) {
                    if (auto cb = dyn_cast<CallBase>(&i); cb && &cb->getCalledOperandUse() == &u && isa<Function>(c)) {}
                    else if (isa<LandingPadInst>(i)) {}
                    else { auto f = ck.find(v); if (f == ck.end()) { fi->consts.push_back(constval(c)); s = -(int)fi->consts.size(); ck[v] = s; } else s = f->second; }
                } else s = fi->slot[v];
                n.ops.push_back(s);
            }
            bi.in.push_back(std::move(n));
        }
        fi->bb.push_back(std::move(bi));
    }
    FINFO[F] = fi; return fi;
}
struct Frame { FuncInfo *fi; int bb, ip; int prevbb; std::vector<Val> r; std::vector<Obj *> allocas; u64 stk; std::vector<Val> varargs; };
static std::vector<Frame> ST;
static std::string demang(const std::string &s) { std::string d = demangle(s); return d; }
static std::string fnname(const Function *F) { std::string d = demang(F->getName().str()); auto p = d.find('('); return p == std::string::npos ? d : d.substr(0, p); }
static std::string here() {
    std::string r;
    for (int i = (int)ST.size() - 1; i >= 0 && r.size() < 400; i--) {
        auto &f = ST[i];
        auto &in = f.fi->bb[f.bb].in;
        std::string loc;
        int ip = f.ip; if (ip >= (int)in.size()) ip = in.size() - 1;
        if (ip >= 0) if (auto dl = in[ip].I->getDebugLoc()) loc = std::string(dl->getFilename()) + ":" + std::to_string(dl->getLine());
        auto p = loc.rfind('/'); if (p != std::string::npos) loc = loc.substr(p + 1);
        std::string n = fnname(f.fi->F); if (n.size() > 80) n = n.substr(0, 80);
        r += (r.empty() ? "" : " < ") + n + (loc.empty() ? "" : "@" + loc);
    }
    return r;
}
static std::string stackstr() { return here(); }

static void enter(const Function *F, std::vector<Val> args, std::vector<Val> va = {}) {
    if (ST.size() > 3000) { cex_here("memory", "call stack overflow"); end_path("done-error"); }
    Frame f; f.fi = finfo(F); f.bb = 0; f.ip = 0; f.prevbb = -1; f.r.resize(f.fi->nslots); f.stk = stkTop; f.varargs = std::move(va);
    unsigned i = 0;
    for (auto &a : F->args()) {
        Val v = i < args.size() ? args[i] : undefOf(a.getType());
        if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()); Obj *o = new_obj(stkTop, sz, 16, 's', true); mem_copy(o->base, concretize(v, "address"), sz); f.allocas.push_back(o); v = vc(64, o->base); }
        f.r[i++] = v;
    }
    
    ST.push_back(std::move(f));
}
static void pop_frame() {
    Frame &f = ST.back();
    for (auto o : f.allocas) obj_free(o);
    stkTop = f.stk;
    ST.pop_back();
}
static inline const Val &opv(Frame &f, const Inst &n, unsigned i) { int s = n.ops[i]; return s >= 0 ? f.r[s] : f.fi->consts[-s - 1]; }

static void jump(Frame &f, const BasicBlock *to) {
    int nb = f.fi->bidx[to]; f.prevbb = f.bb; const BasicBlock *from = f.fi->bb[f.bb].in.back().I->getParent();
    f.bb = nb; f.ip = 0;
    BInfo &b = f.fi->bb[nb];
    if (b.nphi) {
        std::vector<Val> t(b.nphi);
        for (unsigned i = 0; i < b.nphi; i++) { auto ph = cast<PHINode>(b.in[i].I); int k = ph->getBasicBlockIndex(from); t[i] = opv(f, b.in[i], k); }
        for (unsigned i = 0; i < b.nphi; i++) f.r[b.in[i].dest] = t[i];
        f.ip = b.nphi;
    }
}
// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj, ti; };
static std::unordered_map<u64, Exc> EXCS; // by header/object address
static std::vector<u64> CAUGHT;
static std::map<u64, int> TIDS;
static u64 ADJ = 0;
static int tid(u64 ti) { auto it = TIDS.find(ti); if (it != TIDS.end()) return it->second; int n = TIDS.size() + 1; TIDS[ti] = n; return n; }
static std::unordered_map<u64, u64> ADJUSTED;
static bool ti_match(u64 catchti, u64 exc) {
    Exc &x = EXCS[exc];
    if (!catchti) { ADJUSTED[exc] = x.obj; return true; }
    void *p = (void *)x.obj;
    const std::type_info *t = (const std::type_info *)x.ti, *c = (const std::type_info *)catchti;
    if (t->__is_pointer_p()) p = *(void **)p;
    if (c->__do_catch(t, &p, 1)) { ADJUSTED[exc] = (u64)p; return true; }
    return false;
}
static std::string ti_name(u64 ti) { return demang(std::string("_ZTS") + ((const std::type_info *)ti)->name()); }
static void unwind(u64 exc) {
    // is there any handler at all? if not, terminate
    while (!ST.empty()) {
        Frame &f = ST.back();
        auto &in = f.fi->bb[f.bb].in[f.ip];
        if (auto inv = dyn_cast<InvokeInst>(in.I)) {
            const LandingPadInst *lp = inv->getLandingPadInst();
            int sel = 0; bool enter_lp = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) { auto c = cast<Constant>(lp->getClause(i)); u64 ti = isa<ConstantPointerNull>(c) ? 0 : constval(c).lo;
                    if (ti_match(ti, exc)) { sel = ti ? tid(ti) : tid(0); enter_lp = true; break; } }
                else { // filter: only the empty filter (noexcept) is supported
                    sel = -1; enter_lp = true; break; }
            }
            if (enter_lp) {
                jump(f, inv->getUnwindDest());
                Val v; v.k = AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(vc(64, exc)); v.agg->push_back(vc(32, sel));
                f.r[f.fi->slot[lp]] = v;
                f.ip = f.ip; // landingpad itself is skipped below
                auto &b = f.fi->bb[f.bb];
                while (!isa<LandingPadInst>(b.in[f.ip].I)) f.ip++;
                f.ip++;
                return;
            }
        }
        if (f.fi->F->doesNotThrow() && false) {}
        pop_frame();
    }
    cex_here("uncaught", "uncaught exception " + ti_name(EXCS[exc].ti));
    end_path("done-error");
}
static void do_throw(u64 obj, u64 ti) { EXCS[obj] = {obj, ti}; unwind(obj); }

static void finish_call(Frame &f, const Inst &n, const Val &v) {
    if (n.dest >= 0) f.r[n.dest] = v;
    if (auto inv = dyn_cast<InvokeInst>(n.I)) jump(f, inv->getNormalDest()); else f.ip++;
}
#include "calls.inc"

static Val vecop(const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &g) {
    if (a.k != AGG) return g(a, b);
    Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < a.agg->size(); i++) r.agg->push_back(g((*a.agg)[i], (*b.agg)[i]));
    return r;
}
static Val castop(unsigned op, const Val &a, Type *from, Type *to) {
    if (a.k == AGG && op != Instruction::BitCast) { Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < a.agg->size(); i++) r.agg->push_back(castop(op, (*a.agg)[i], elemTy(from, i), elemTy(to, i))); return r; }
    switch (op) {
    case Instruction::Trunc: return trunc_val(a, tbits(to));
    case Instruction::ZExt: return zext_val(a, tbits(to));
    case Instruction::SExt: return sext_val(a, tbits(to));
    case Instruction::FPTrunc: case Instruction::FPExt: return fconv(fofbits(a), tbits(to));
    case Instruction::FPToSI: return fptoint(fofbits(a), tbits(to), true);
    case Instruction::FPToUI: return fptoint(fofbits(a), tbits(to), false);
    case Instruction::SIToFP: return inttofp(a, tbits(to), true);
    case Instruction::UIToFP: return inttofp(a, tbits(to), false);
    case Instruction::PtrToInt: return trunc_val(a, tbits(to));
    case Instruction::IntToPtr: return a.bits < 64 ? zext_val(a, 64) : a;
    case Instruction::AddrSpaceCast: return a;
    case Instruction::BitCast: {
        if (!isAgg(from) && !isAgg(to)) { if (to->isFloatingPointTy()) return fofbits(a); return a; }
        unsigned n = DL->getTypeStoreSize(from);
        std::vector<Val> b;
        if (a.k == AGG) for (unsigned i = 0; i < a.agg->size(); i++) { auto w = to_bytes((*a.agg)[i], DL->getTypeStoreSize(elemTy(from, i))); b.insert(b.end(), w.begin(), w.end()); }
        else b = to_bytes(a, n);
        if (!isAgg(to)) { Val v = norm_bytes(b); return to->isFloatingPointTy() ? fofbits(v) : v; }
        Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); unsigned es = DL->getTypeStoreSize(elemTy(to, 0));
        for (unsigned i = 0; i < nelem(to); i++) { std::vector<Val> w(b.begin() + i * es, b.begin() + (i + 1) * es); Val v = norm_bytes(w); r.agg->push_back(elemTy(to, i)->isFloatingPointTy() ? fofbits(v) : v); }
        return r; }
    }
    UNSUP("cast");
}
static u64 addr_of(const Val &v) { if (v.k == CONC) return v.lo; return concretize(v, "address"); }

static void step() {
    Frame &f = ST.back();
    const Inst &n = f.fi->bb[f.bb].in[f.ip];
    const Instruction *I = n.I;
    Type *T = I->getType();
    if ((++INSTRS & 0xfff) == 0 && ((WARM && INSTRS > WARMCAP) || limits())) end_path("limit");
    switch (n.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        const Val &a = opv(f, n, 0), &b = opv(f, n, 1);
        f.r[n.dest] = a.k == AGG ? vecop(a, b, [&](const Val &x, const Val &y) { return binop(n.op, x, y); }) : binop(n.op, a, b);
        f.ip++; break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val r = vecop(opv(f, n, 0), opv(f, n, 1), [&](const Val &x, const Val &y) { return fbin(n.op, fofbits(x), fofbits(y)); });
        f.r[n.dest] = r; f.ip++; break; }
    case Instruction::FNeg: { Val a = opv(f, n, 0); f.r[n.dest] = vecop(a, a, [&](const Val &x, const Val &) { return fneg(fofbits(x)); }); f.ip++; break; }
    case Instruction::ICmp: { auto p = cast<CmpInst>(I)->getPredicate(); f.r[n.dest] = vecop(opv(f, n, 0), opv(f, n, 1), [&](const Val &x, const Val &y) { return icmp(p, x, y); }); f.ip++; break; }
    case Instruction::FCmp: { auto p = cast<CmpInst>(I)->getPredicate(); f.r[n.dest] = vecop(opv(f, n, 0), opv(f, n, 1), [&](const Val &x, const Val &y) { return fcmp(p, fofbits(x), fofbits(y)); }); f.ip++; break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        f.r[n.dest] = castop(n.op, opv(f, n, 0), I->getOperand(0)->getType(), T); f.ip++; break;
    case Instruction::Select: {
        const Val &c = opv(f, n, 0);
        if (c.k == AGG) { Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c.agg->size(); i++) { const Val &ci = (*c.agg)[i]; const Val &x = (*opv(f, n, 1).agg)[i], &y = (*opv(f, n, 2).agg)[i]; r.agg->push_back(ci.k == CONC ? (ci.lo ? x : y) : ci.k == UNDEF ? vundef(x.bits) : ite_val(asBool(ci), x, y, elemTy(T, i))); } f.r[n.dest] = r; }
        else if (c.k == CONC) f.r[n.dest] = c.lo & 1 ? opv(f, n, 1) : opv(f, n, 2);
        else if (c.k == UNDEF) { const Val &x = opv(f, n, 1), &y = opv(f, n, 2); f.r[n.dest] = (x.k == CONC && y.k == CONC && x.lo == y.lo && x.hi == y.hi) ? x : undefOf(T); }
        else { Val r = ite_val(asBool(c), opv(f, n, 1), opv(f, n, 2), T); f.r[n.dest] = r; }
        f.ip++; break; }
    case Instruction::Freeze: { Val a = opv(f, n, 0); if (a.k == UNDEF) a = zeroOf(T); f.r[n.dest] = a; f.ip++; break; }
    case Instruction::Alloca: {
        auto ai = cast<AllocaInst>(I); u64 cnt = 1; if (ai->isArrayAllocation()) cnt = concretize(opv(f, n, 0), "alloca size");
        Obj *o = new_obj(stkTop, cnt * DL->getTypeAllocSize(ai->getAllocatedType()), ai->getAlign().value(), 's', true);
        f.allocas.push_back(o); f.r[n.dest] = vc(64, o->base); f.ip++; break; }
    case Instruction::Load: { u64 a = addr_of(opv(f, n, 0)); Val v = load(a, T); if (T->isFloatingPointTy()) v = fofbits(v); ST.back().r[n.dest] = v; f.ip++; break; }
    case Instruction::Store: { u64 a = addr_of(opv(f, n, 1)); store(a, opv(f, n, 0), I->getOperand(0)->getType()); f.ip++; break; }
    case Instruction::GetElementPtr: {
        auto g = cast<GEPOperator>(I); Val b = opv(f, n, 0); if (T->isVectorTy()) UNSUP("vector gep");
        u64 off = 0; Val symoff; bool hs = false; unsigned k = 1; bool und = b.k == UNDEF;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
            if (auto st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
            u64 es = it.getSequentialElementStride(*DL); const Val &ix = opv(f, n, k);
            if (ix.k == CONC) off += sext64(ix.lo, ix.bits) * es;
            else if (ix.k == UNDEF) und = true;
            else { Val x = ix.bits < 64 ? sext_val(ix, 64) : ix; x = binop(Instruction::Mul, x, vc(64, es)); symoff = hs ? binop(Instruction::Add, symoff, x) : x; hs = true; }
        }
        if (und) f.r[n.dest] = vundef(64);
        else { Val r = binop(Instruction::Add, b, vc(64, off)); if (hs) r = binop(Instruction::Add, r, symoff); f.r[n.dest] = r; }
        f.ip++; break; }
    case Instruction::ExtractValue: { Val v = opv(f, n, 0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; } f.r[n.dest] = v; f.ip++; break; }
    case Instruction::InsertValue: {
        std::function<Val(const Val &, const Val &, ArrayRef<unsigned>)> ins = [&](const Val &a, const Val &x, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return x; Val r = a; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], x, ix.drop_front()); return r; };
        f.r[n.dest] = ins(opv(f, n, 0), opv(f, n, 1), cast<InsertValueInst>(I)->getIndices()); f.ip++; break; }
    case Instruction::ExtractElement: { u64 i = concretize(opv(f, n, 1), "vector index"); Val v = (*opv(f, n, 0).agg)[i]; f.r[n.dest] = v; f.ip++; break; }
    case Instruction::InsertElement: { u64 i = concretize(opv(f, n, 2), "vector index"); Val r = opv(f, n, 0); r.agg = std::make_shared<std::vector<Val>>(*r.agg); (*r.agg)[i] = opv(f, n, 1); f.r[n.dest] = r; f.ip++; break; }
    case Instruction::ShuffleVector: {
        auto sv = cast<ShuffleVectorInst>(I); const Val &a = opv(f, n, 0), &b = opv(f, n, 1); unsigned w = a.agg->size();
        Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>();
        for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? undefOf(elemTy(T, 0)) : (unsigned)m < w ? (*a.agg)[m] : (*b.agg)[m - w]);
        f.r[n.dest] = r; f.ip++; break; }
    case Instruction::Br: {
        auto br = cast<BranchInst>(I);
        if (br->isUnconditional()) { jump(f, br->getSuccessor(0)); break; }
        const Val &c = opv(f, n, 0); bool t;
        if (c.k == CONC) t = c.lo & 1;
        else if (c.k == UNDEF) { cex_here("uninit", "branch on an uninitialised value"); end_path("done-error"); }
        else t = decide(asBool(c));
        jump(f, br->getSuccessor(t ? 0 : 1)); break; }
    case Instruction::Switch: {
        auto sw = cast<SwitchInst>(I); Val c = opv(f, n, 0);
        if (c.k == UNDEF) { cex_here("uninit", "switch on an uninitialised value"); end_path("done-error"); }
        const BasicBlock *to = nullptr;
        if (c.k == CONC) { for (auto &cs : sw->cases()) if (cs.getCaseValue()->getValue().getZExtValue() == c.lo) { to = cs.getCaseSuccessor(); break; } }
        else for (auto &cs : sw->cases()) { Val e = icmp(CmpInst::ICMP_EQ, c, vc(c.bits, cs.getCaseValue()->getValue().getZExtValue())); if (e.k == CONC ? e.lo : decide(e.e)) { to = cs.getCaseSuccessor(); break; } }
        jump(f, to ? to : sw->getDefaultDest()); break; }
    case Instruction::Ret: {
        Val v; if (I->getNumOperands()) v = opv(f, n, 0);
        pop_frame();
        if (ST.empty()) return;
        Frame &c = ST.back(); finish_call(c, c.fi->bb[c.bb].in[c.ip], v); break; }
    case Instruction::Unreachable: cex_here("unreachable", "undefined behaviour: unreachable code reached"); end_path("done-error");
    case Instruction::Resume: { Val v = opv(f, n, 0); u64 e = (*v.agg)[0].lo; pop_frame();
        if (ST.empty()) { cex_here("uncaught", "uncaught exception " + ti_name(EXCS[e].ti)); end_path("done-error"); }
        unwind(e); break; }
    case Instruction::LandingPad: UNSUP("landingpad reached normally");
    case Instruction::Call: case Instruction::Invoke: do_call(f, n); break;
    case Instruction::AtomicRMW: {
        auto rm = cast<AtomicRMWInst>(I); u64 a = addr_of(opv(f, n, 0)); Type *vt = rm->getValOperand()->getType(); Val o = load(a, vt), x = opv(f, n, 1), r;
        switch (rm->getOperation()) { case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = binop(Instruction::Add, o, x); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, x); break;
        case AtomicRMWInst::And: r = binop(Instruction::And, o, x); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, o, x); break; default: UNSUP("atomicrmw"); }
        store(a, r, vt); ST.back().r[n.dest] = o; f.ip++; break; }
    case Instruction::AtomicCmpXchg: {
        auto cx = cast<AtomicCmpXchgInst>(I); u64 a = addr_of(opv(f, n, 0)); Type *vt = cx->getNewValOperand()->getType(); Val o = load(a, vt); Val e = icmp(CmpInst::ICMP_EQ, o, opv(f, n, 1)); bool t = e.k == CONC ? e.lo : decide(asBool(e));
        if (t) store(a, opv(f, n, 2), vt); Val r; r.k = AGG; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(o); r.agg->push_back(vc(1, t)); f.r[n.dest] = r; f.ip++; break; }
    case Instruction::Fence: f.ip++; break;
    case Instruction::VAArg: UNSUP("va_arg");
    default: UNSUP(std::string("instruction ") + I->getOpcodeName());
    }
}
static void run() { while (!ST.empty()) step(); }

static void store_const(u64 a, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset((void *)a, 0, DL->getTypeAllocSize(c->getType())); return; }
    if (auto d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
    if (auto g = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < g->getNumOperands(); i++) store_const(a + elemOff(c->getType(), i), g->getOperand(i)); return; }
    Val v = constval(c); unsigned n = DL->getTypeStoreSize(c->getType());
    if (v.k == AGG) { store(a, v, c->getType()); return; }
    u64 b[2] = {v.lo, v.hi}; memcpy((void *)a, b, n);
}
static void on_segv(int sig, siginfo_t *si, void *) {
    char b[128]; int n = snprintf(b, 128, "native crash: signal %d at %p", sig, si->si_addr);
    (void)n; INC(unsupported); note("unsupported", std::string(b) + " at " + here()); static bool again = false; if (!again) { again = true; finish_concretely(b); } path_exit();
}

int main(int argc, char **argv) {
    T0 = now(); std::string mod; int jobs = 1, warm = 0; std::vector<std::string> libs, also;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") ENTRY = nx(); else if (a == "--out") OUTF = nx(); else if (a == "-j") jobs = stoi(nx());
        else if (a == "--max-paths") MAXPATHS = stol(nx()); else if (a == "--time") TLIMIT = stod(nx()); else if (a == "--rlimit") RLIMIT = stol(nx());
        else if (a == "--max-cex") MAXCEX = stol(nx()); else if (a == "--path-records") PATHREC = stol(nx()); else if (a == "--max-enum") MAXENUM = stol(nx());
        else if (a == "--logic") LOGIC = nx(); else if (a == "--fp") REALMODE = false; else if (a == "--trust") TRUST.push_back(nx()); else if (a == "--dlopen") libs.push_back(nx()); else if (a == "--warm") warm = stoi(nx()); else if (a == "--warm-also") also.push_back(nx()); else mod = a;
    }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->running = 1; S->maxrun = jobs; S->paths = 1;
    for (auto r : {std::pair<u64, u64>{HEAP, HEAPSZ}, {STK, STKSZ}, {GLB, GLBSZ}})
        if (mmap((void *)r.first, r.second, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap"); return 3; }
    mmap((void *)FUN, FUNSZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    for (auto &l : libs) if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    unlink(OUTF.c_str());
    LLVMContext ctx; SMDiagnostic err; auto mp = parseIRFile(mod, err, ctx);
    if (!mp) { err.print("sx", errs()); return 3; }
    M = mp.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { INC(unsupported); note("unsupported", std::string("z3 error: ") + Z3_get_error_msg(c, e) + " at " + here()); path_exit(); });
    SOL = new_solver(FASTLIMIT);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    stack_t ss; ss.ss_sp = malloc(1 << 22); ss.ss_size = 1 << 22; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    const Function *EF = M->getFunction(ENTRY);
    if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", ENTRY.c_str()); return 3; }
    pid_t root = fork();
    if (root == 0) {
        setpgid(0, 0);
        intercepts_init();
        for (auto &g : M->globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) gaddr(&g);
        for (auto &g : M->globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) store_const(gaddr(&g), g.getInitializer());
        for (auto &g : M->globals()) if (!g.isDeclaration() && g.isConstant()) if (Obj *o = find_obj(gaddr(&g))) o->kind = 'c';
        if (auto gc = M->getGlobalVariable("llvm.global_ctors")) if (auto arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, const Function *>> fs;
            for (auto &o : arr->operands()) { auto st = cast<ConstantStruct>(o); fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
            std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : fs) if (p.second && !p.second->isDeclaration()) { enter(p.second, {}); run(); }
        }
        liveHeap = 0;
        // The other entries come first, in part on other values: what the code keeps may come from different data of different sizes.
        const Function *restore = M->getFunction("vf_restore"); std::string mask; int runs[2] = {}, part[2] = {}; u64 budget[2] = {2500000, 1500000};
        auto once = [&](const Function *F, int w, bool own, u64 cap) {
            INSTRS = WARMASKED = 0; WARM = w; WARMCAP = cap; bool same = true;
            try { enter(F, {}); run(); } catch (WarmEnd &e) { same = e.same; }
            WARM = 0; while (!ST.empty()) pop_frame();
            CAUGHT.clear(); OBS.clear(); runs[own]++; part[own] += !same; budget[own] -= std::min(budget[own], INSTRS);
            if (same) mask += (mask.empty() ? "" : " ") + F->getName().str() + " " + std::to_string(w);
            if (restore && !restore->isDeclaration()) { enter(restore, {}); run(); } };
        for (int w = 1; warm && w <= 3; w += 2) for (auto &n : also) { auto F = M->getFunction(n); if (F && !F->isDeclaration() && budget[0] > 1000) once(F, w, false, std::min<u64>(budget[0], 600000)); }
        for (int w = 1; w <= warm; w++) once(EF, w, true, 3000000);
        for (int w = warm + 1; warm && w <= 8 && budget[1] > 1000; w++) once(EF, w, true, std::min<u64>(budget[1], 600000));
        if (warm) emit("{\"t\":\"warm\",\"runs\":\"" + mask + "\",\"how\":\"" + std::to_string(runs[1]) + " runs (" + std::to_string(part[1]) + " in part) after " + std::to_string(runs[0]) + " runs of other entries (" + std::to_string(part[0]) + " in part)\"}");
        liveHeap = 0; INSTRS = 0;
        enter(EF, {}); run();
        end_path("done");
    }
    setpgid(root, root);
    int st = 0; bool killed = false;
    while (waitpid(root, &st, WNOHANG) == 0) { // a solver call that does not return must not outlive the time limit
        if (now() - T0 > TLIMIT + 12) { S->stop = 1; S->limit_hit = 3; killed = true; note("info", "exploration stopped: time limit"); kill(-root, SIGKILL); waitpid(root, &st, 0); break; }
        usleep(10000);
    }
    if (!killed && WIFSIGNALED(st)) { S->errors++; note("error", "root path died"); }
    char b[2048];
    snprintf(b, sizeof b, "{\"t\":\"stats\",\"entry\":\"%s\",\"paths\":%ld,\"done\":%ld,\"infeasible\":%ld,\"excluded\":%ld,\"unsupported\":%ld,\"errors\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"checks\":%ld,\"checks_trivial\":%ld,\"checks_undecided\":%ld,\"instrs\":%ld,\"limit\":%ld,\"solver_s\":%.3f,\"native_calls\":%ld,\"cex\":%ld,\"wall_s\":%.3f}",
             ENTRY.c_str(), S->paths, S->done, S->infeasible, S->excluded, S->unsupported, S->errors, S->forks, S->branches, S->queries, S->qsat, S->qunsat, S->qunknown, S->checks, S->checks_trivial, S->checks_undecided, S->instrs, S->limit_hit, S->solver_us / 1e6, S->native_calls, S->cex, now() - T0);
    emit(b);
    return 0;
}
