// Host-implemented functions and LLVM intrinsics (included by exec.cpp).
enum B { B_NONE = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_EXC_ALLOC, B_EXC_FREE, B_THROW, B_RETHROW, B_BEGIN, B_END, B_TERM, B_ABORT, B_ASSERT, B_ATEXIT, B_GACQ, B_GREL, B_GABRT, B_MATH1, B_MATH2, B_GLIBASSERT,
    B_SRANGE, B_SFORK, B_SASSUME, B_SCHECK, B_SCOVER, B_SOBS, B_SPARAM, B_SVALUE, B_NOP, B_ZERO, B_SNPRINTF, B_STRTOD, B_STRTOL, B_GETEXC, B_UNCAUGHT, B_SDEBUG, B_PURE_VIRT, B_SOBSD, B_ISCONST };
static const std::map<std::string, int>& builtinMap() {
    static std::map<std::string, int> m = {
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWA}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELA}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
        {"__cxa_allocate_exception", B_EXC_ALLOC}, {"__cxa_free_exception", B_EXC_FREE}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_begin_catch", B_BEGIN}, {"__cxa_end_catch", B_END}, {"_ZSt9terminatev", B_TERM}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_GLIBASSERT}, {"__cxa_atexit", B_ZERO}, {"__cxa_thread_atexit", B_ZERO},
        {"__cxa_guard_acquire", B_GACQ}, {"__cxa_guard_release", B_GREL}, {"__cxa_guard_abort", B_GABRT}, {"__cxa_pure_virtual", B_PURE_VIRT}, {"_ZSt18uncaught_exceptionv", B_ZERO}, {"_ZSt19uncaught_exceptionsv", B_ZERO},
        {"sym_range", B_SRANGE}, {"sym_fork", B_SFORK}, {"sym_assume", B_SASSUME}, {"sym_check", B_SCHECK}, {"sym_cover", B_SCOVER}, {"sym_observe", B_SOBS}, {"sym_param", B_SPARAM}, {"sym_debug", B_SDEBUG},
        {"snprintf", B_SNPRINTF}, {"__symx_strtod", B_STRTOD}, {"__symx_known", B_ISCONST},
    };
    return m;
}
static double (*g_math1[])(double) = {std::floor, std::ceil, std::trunc, std::round, std::sqrt, std::exp, std::log, std::log10, std::log2, std::sin, std::cos, std::tan, std::sinh, std::cosh, std::tanh, std::asin, std::acos, std::atan, std::fabs, std::rint, std::cbrt, std::asinh, std::acosh, std::atanh, std::exp2, std::expm1, std::log1p, std::nearbyint};
static const char* g_math1n[] = {"floor", "ceil", "trunc", "round", "sqrt", "exp", "log", "log10", "log2", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "fabs", "rint", "cbrt", "asinh", "acosh", "atanh", "exp2", "expm1", "log1p", "nearbyint"};
static double (*g_math2[])(double, double) = {std::pow, std::atan2, std::fmod, std::hypot, std::fmin, std::fmax, std::remainder, std::fdim, std::nextafter};
static const char* g_math2n[] = {"pow", "atan2", "fmod", "hypot", "fmin", "fmax", "remainder", "fdim", "nextafter"};
static int builtinId(const std::string& n) {
    auto it = builtinMap().find(n); if (it != builtinMap().end()) return it->second;
    for (unsigned i = 0; i < sizeof(g_math1n) / sizeof(*g_math1n); i++) if (n == g_math1n[i]) return 10000 + i;
    for (unsigned i = 0; i < sizeof(g_math2n) / sizeof(*g_math2n); i++) if (n == g_math2n[i]) return 20000 + i;
    return -1;
}
static void advance(State& s);
static void enter(State& s, Fn* callee, std::vector<V>& args);
static void result(State& s, Ins& I, V v) { if (I.dst >= 0) s.st.back().r[I.dst] = v; advance(s); }
static E mathE(State& s, unsigned idx, E a) {
    if (idx < 4) return mkF1(K_FRND, a, idx == 3 ? 4 : idx); if (idx == 18) return mkF1(K_FABS, a); if (idx == 19) return mkF1(K_FRND, a, 3); bool ok; E r = mkFPure(g_math1[idx], a, ok); if (ok) return r; if (idx == 4) return mkF1(K_FSQRT, a);
    uint64_t c = concretize(s, V{0, a}, 64); return mkFPure(g_math1[idx], mkConst(c, 64), ok);
}
static uint64_t allocChecked(State& s, uint64_t n, int how) { if (n > (1ull << 24)) { g_limits.insert("allocation above 16 MB at " + where(s)); g_st.limited++; if (s.merging) throw std::string("alloc"); throw Dead(); } return newObj(s, n, 2, how); }
static void doCheck(State& s, V c, const std::string& msg) {
    if (s.merging) throw std::string("check in merged call");
    g_checkMsgs[msg]++;
    if (!c.e) { g_st.checksConst++; if (!c.c) err(s, "check", msg); return; }
    E cond = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    if (cond->isConst()) { g_st.checksConst++; if (!cond->c) err(s, "check", msg); return; }
    int k = known(s, cond); if (k == 1) { g_st.checksConst++; return; }
    if (s.pc) { E c2 = under(s, cond); if (c2->isConst() && c2->c) { g_st.checksConst++; return; } }
    g_st.checksSolver++; std::vector<uint64_t> m = s.model; E bad = mkNot(cond);
    if (!evalM(s, cond)) { report(s, "check", msg, s.model); std::vector<uint64_t> m2 = s.model; if (query(s, cond, m2) != Sat::Yes) throw Dead(); s.model = m2; addPC1(s, cond); return; }
    Sat r = query(s, bad, m); if (r == Sat::Yes) { report(s, "check", msg, m); addPC1(s, cond); } else if (r == Sat::No) s.implied.push_back(cond);
}
static void builtin(State& s, Ins& I, int id, unsigned base) {
    auto A = [&](unsigned i) { return get(s.st.back(), I.a[base + i]); };
    auto W = [&](unsigned i) { return I.kw[i]; };
    auto C = [&](unsigned i) { return concretize(s, A(i), W(i)); };
    if (id >= 20000) { bool ok; E r = mkFPure2(g_math2[id - 20000], X(A(0), 64), X(A(1), 64), ok); if (!ok) { uint64_t a = C(0), b = C(1); r = mkFPure2(g_math2[id - 20000], mkConst(a, 64), mkConst(b, 64), ok); } result(s, I, L(r)); return; }
    if (id >= 10000) { result(s, I, L(mathE(s, id - 10000, X(A(0), 64)))); return; }
    switch (id) {
    case B_MALLOC: { uint64_t n = C(0); result(s, I, VC(allocChecked(s, n, 0))); return; }
    case B_NEW: { uint64_t n = C(0); result(s, I, VC(allocChecked(s, n, 1))); return; }
    case B_NEWA: { uint64_t n = C(0); result(s, I, VC(allocChecked(s, n, 2))); return; }
    case B_CALLOC: { uint64_t n = C(0) * C(1); uint64_t a = allocChecked(s, n, 0); memSet(s, a, VC(0), n); result(s, I, VC(a)); return; }
    case B_REALLOC: { uint64_t p = C(0), n = C(1); uint64_t a = allocChecked(s, n, 0); if (p) { Obj* o = findObj(s, p); if (!o || o->base != p) err(s, "memory", "realloc of an invalid pointer"); memCopy(s, a, p, std::min<uint64_t>(n, o->size), false); delObj(s, p, 0); } result(s, I, VC(a)); return; }
    case B_FREE: { uint64_t p = C(0); delObj(s, p, 0); advance(s); return; }
    case B_DEL: { uint64_t p = C(0); delObj(s, p, 1); advance(s); return; }
    case B_DELA: { uint64_t p = C(0); delObj(s, p, 2); advance(s); return; }
    case B_MEMCPY: case B_MEMMOVE: { uint64_t d = C(0), c = C(1), n = C(2); memCopy(s, d, c, n, id == B_MEMMOVE); result(s, I, VC(d)); return; }
    case B_MEMSET: { uint64_t d = C(0), n = C(2); memSet(s, d, A(1), n); result(s, I, VC(d)); return; }
    case B_EXC_ALLOC: { uint64_t n = C(0); result(s, I, VC(newObj(s, n, 3))); return; }
    case B_EXC_FREE: advance(s); return;
    case B_THROW: { if (s.merging) throw std::string("throw"); uint64_t e = C(0), t = C(1), d = C(2); s.excs.push_back({e, t, d, 0, 0}); unwind(s, e, t, true); return; }
    case B_RETHROW: { if (s.caught.empty()) err(s, "exception", "rethrow without an active exception"); uint64_t e = s.caught.back(); Exc* x = findExc(s, e); x->rc++; unwind(s, e, x->ti, true); return; }
    case B_BEGIN: { uint64_t e = C(0); Exc* x = findExc(s, e); if (x) { x->handlers++; s.caught.push_back(e); } result(s, I, VC(e)); return; }
    case B_END: { if (s.caught.empty()) { advance(s); return; } uint64_t e = s.caught.back(); s.caught.pop_back(); Exc* x = findExc(s, e); if (x->rc > 0) { x->rc--; x->handlers--; advance(s); return; } if (--x->handlers == 0 && x->dtor) { auto it = g_fnAt.find(x->dtor); if (it != g_fnAt.end() && !it->second->F->isDeclaration()) { std::vector<V> a = {VC(e)}; enter(s, it->second, a); return; } } advance(s); return; }
    case B_TERM: err(s, "abort", "std::terminate is called");
    case B_ABORT: err(s, "abort", "abort is called");
    case B_PURE_VIRT: err(s, "abort", "pure virtual call");
    case B_ASSERT: err(s, "assert", "assertion " + cstr(s, A(0).c));
    case B_GLIBASSERT: err(s, "assert", "library precondition " + cstr(s, A(3).c));
    case B_ZERO: result(s, I, VC(0)); return;
    case B_NOP: advance(s); return;
    case B_GACQ: { V v = load(s, A(0), 8, false); result(s, I, VC(v.c == 0)); return; }
    case B_GREL: store(s, A(0), VC(1), 8, false); advance(s); return;
    case B_GABRT: advance(s); return;
    case B_SRANGE: {
        std::string n = cstr(s, C(0)); int64_t lo = (int64_t)C(1), hi = (int64_t)C(2); int k = s.nameCnt[n]++; if (k) n += "#" + std::to_string(k);
        if (lo > hi) err(s, "engine", "sym_range with an empty range"); V v; if (lo == hi) v = VC((uint64_t)lo); else { E x = mkVar(n, 64, 0, (u128)((uint64_t)hi - (uint64_t)lo)); while (s.model.size() <= (size_t)x->c) s.model.push_back(0); v = L(mkAdd(x, mkConst((uint64_t)lo, 64))); }
        s.inputs.push_back({n, v, 64}); result(s, I, v); return; }
    case B_ISCONST: { V c = A(0); result(s, I, VC(c.e && !c.e->isConst() ? 0 : 1)); return; }
    case B_SFORK: { uint64_t c = C(0); result(s, I, VC(c)); return; }
    case B_SASSUME: { V c = A(0); if (!c.e) { if (!c.c) { g_st.assumeKilled++; throw Dead(); } advance(s); return; } E cond = mkNot(mkEq(c.e, mkConst(0, c.e->w))); if (cond->isConst()) { if (!cond->c) { g_st.assumeKilled++; throw Dead(); } advance(s); return; }
        if (!evalM(s, cond)) { std::vector<uint64_t> m = s.model; if (query(s, cond, m) != Sat::Yes) { g_st.assumeKilled++; throw Dead(); } s.model = m; } addPC1(s, cond); advance(s); return; }
    case B_SCHECK: { uint64_t p = C(1); doCheck(s, A(0), cstr(s, p)); advance(s); return; }
    case B_SCOVER: { uint64_t p = C(0); if (!s.merging) g_covers[cstr(s, p)]++; advance(s); return; }
    case B_SOBS: { uint64_t p = C(0); s.obs.push_back({cstr(s, p), A(1), 64}); advance(s); return; }
    case B_SPARAM: { uint64_t p = C(0); std::string n = cstr(s, p); auto it = g_params.find(n); long v = it == g_params.end() ? (long)A(1).c : it->second; result(s, I, VC((uint64_t)v)); return; }
    case B_SDEBUG: { uint64_t p = C(0); V v = A(1); fprintf(stderr, "debug %s = %s\n", cstr(s, p).c_str(), v.e ? exprStr(v.e, 10).c_str() : std::to_string((long)v.c).c_str()); if (cstr(s, p) == "pc") for (PC* q = s.pc; q; q = q->parent) fprintf(stderr, "   %s\n", exprStr(q->e, 10).c_str()); advance(s); return; }
    case B_SNPRINTF: { // concrete arguments only
        uint64_t d = C(0), n = C(1), fp = C(2); std::string f = cstr(s, fp), o; unsigned ai = 3;
        for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { o += f[i]; continue; } std::string sp = "%"; i++; while (i < f.size() && !strchr("diuxXcsgGeEfFaAp%", f[i])) { if (f[i] == '*') { sp += std::to_string((int)C(ai++)); } else sp += f[i]; i++; } char cv = f[i]; sp += cv; char buf[512];
            if (cv == '%') o += '%'; else if (strchr("gGeEfFaA", cv)) { uint64_t b = C(ai++); double x; memcpy(&x, &b, 8); snprintf(buf, sizeof buf, sp.c_str(), x); o += buf; } else if (cv == 's') { std::string a = cstr(s, C(ai++)); snprintf(buf, sizeof buf, sp.c_str(), a.c_str()); o += buf; } else { uint64_t b = C(ai++); snprintf(buf, sizeof buf, sp.c_str(), b); o += buf; } }
        if (n) { size_t k = std::min<size_t>(o.size(), n - 1); for (size_t i = 0; i < k; i++) store(s, VC(d + i), VC((uint8_t)o[i]), 8, false); store(s, VC(d + k), VC(0), 8, false); }
        result(s, I, VC(o.size())); return; }
    case B_STRTOD: case B_STRTOL: { // the bytes up to the terminator are made concrete
        uint64_t p = C(0), e = C(1); std::string t; for (uint64_t q = p;; q++) { Obj* o = access(s, q, 1, false); V v = loadObj(s, o, q - o->base, 8); uint64_t c = concretize(s, v, 8); if (!c) break; t += (char)c; if (t.size() > 400) break; }
        char* end; uint64_t r; if (id == B_STRTOD) { double x = strtod(t.c_str(), &end); memcpy(&r, &x, 8); } else r = (uint64_t)strtol(t.c_str(), &end, (int)C(2)); if (e) store(s, VC(e), VC(p + (end - t.c_str())), 64, true); result(s, I, VC(r)); return; }
    }
    fatal("builtin " + std::to_string(id));
}
static void intrinsic(State& s, Ins& I) {
    Frame& f = s.st.back(); auto A = [&](unsigned i) { return get(f, I.a[i]); }; unsigned w = I.w, aw = I.kw.empty() ? 0 : I.kw[0];
    auto R = [&](V v) { f.r[I.dst] = v; advance(s); };
    auto ovf = [&](auto mk, bool sg) { // {result, overflow}
        unsigned W = aw; if (W > 64) fatal("wide overflow intrinsic"); E x = X(A(0), W), y = X(A(1), W); E r = mk(x, y, W); E xx = sg ? mkSExt(x, 2 * W) : mkZExt(x, 2 * W), yy = sg ? mkSExt(y, 2 * W) : mkZExt(y, 2 * W); E rr = mk(xx, yy, 2 * W); E o = mkNot(mkEq(rr, sg ? mkSExt(r, 2 * W) : mkZExt(r, 2 * W)));
        f.r[I.dst] = L(r); f.r[I.dst + 1] = L(o); advance(s); };
    auto add = [](E x, E y, unsigned) { return mkAdd(x, y); }; auto sub = [](E x, E y, unsigned) { return mkSub(x, y); }; auto mul = [](E x, E y, unsigned) { return mkMul(x, y); };
    switch (I.sub) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: if (I.dst >= 0) f.r[I.dst] = VC(0); advance(s); return;
    case Intrinsic::stacksave: R(VC(0)); return;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { uint64_t d = concretize(s, A(0), 64), c = concretize(s, A(1), 64), n = concretize(s, A(2), I.kw[2]); memCopy(s, d, c, n, true); advance(s); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t d = concretize(s, A(0), 64), n = concretize(s, A(2), I.kw[2]); memSet(s, d, A(1), n); advance(s); return; }
    case Intrinsic::eh_typeid_for: R(VC((uint64_t)(uint32_t)selOf(A(0).c))); return;
    case Intrinsic::trap: err(s, "abort", "trap"); case Intrinsic::ubsantrap: err(s, "ub", "undefined behaviour (sanitizer trap " + std::to_string(A(0).c) + ")"); case Intrinsic::debugtrap: err(s, "abort", "trap");
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: R(A(0)); return;
    case Intrinsic::is_constant: R(VC(0)); return;
    case Intrinsic::objectsize: R(VC(A(1).c ? 0 : ~0ull)); return;
    case Intrinsic::abs: { E x = X(A(0), w); R(norm(mkIte(mkSlt(x, mkConst(0, w)), mkNeg(x), x))); return; }
    case Intrinsic::smax: { E x = X(A(0), w), y = X(A(1), w); R(norm(mkIte(mkSlt(x, y), y, x))); return; }
    case Intrinsic::smin: { E x = X(A(0), w), y = X(A(1), w); R(norm(mkIte(mkSlt(x, y), x, y))); return; }
    case Intrinsic::umax: { E x = X(A(0), w), y = X(A(1), w); R(norm(mkIte(mkUlt(x, y), y, x))); return; }
    case Intrinsic::umin: { E x = X(A(0), w), y = X(A(1), w); R(norm(mkIte(mkUlt(x, y), x, y))); return; }
    case Intrinsic::sadd_with_overflow: ovf(add, true); return; case Intrinsic::uadd_with_overflow: ovf(add, false); return; case Intrinsic::ssub_with_overflow: ovf(sub, true); return; case Intrinsic::usub_with_overflow: ovf(sub, false); return; case Intrinsic::smul_with_overflow: ovf(mul, true); return; case Intrinsic::umul_with_overflow: ovf(mul, false); return;
    case Intrinsic::uadd_sat: { E x = X(A(0), w), y = X(A(1), w), r = mkAdd(x, y); R(L(mkIte(mkUlt(r, x), mkConst(maskw(w), w), r))); return; }
    case Intrinsic::usub_sat: { E x = X(A(0), w), y = X(A(1), w); R(L(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)))); return; }
    case Intrinsic::ctlz: { E x = X(A(0), w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); R(L(r)); return; }
    case Intrinsic::cttz: { E x = X(A(0), w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); R(L(r)); return; }
    case Intrinsic::ctpop: { E x = X(A(0), w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w)); R(L(r)); return; }
    case Intrinsic::bswap: { E x = X(A(0), w), r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); R(norm(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t sh = concretize(s, A(2), w) % w; E a = X(A(0), w), b = X(A(1), w); if (!sh) { R(norm(I.sub == Intrinsic::fshl ? a : b)); return; } unsigned l = I.sub == Intrinsic::fshl ? sh : w - sh; R(norm(mkOr(mkShl(a, mkConst(l, w)), mkLShr(b, mkConst(w - l, w))))); return; }
    case Intrinsic::fabs: R(L(mkF1(K_FABS, X(A(0), w)))); return;
    case Intrinsic::floor: R(L(mkF1(K_FRND, X(A(0), w), 0))); return; case Intrinsic::ceil: R(L(mkF1(K_FRND, X(A(0), w), 1))); return; case Intrinsic::trunc: R(L(mkF1(K_FRND, X(A(0), w), 2))); return; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: R(L(mkF1(K_FRND, X(A(0), w), 3))); return; case Intrinsic::round: R(L(mkF1(K_FRND, X(A(0), w), 4))); return;
    case Intrinsic::sqrt: R(L(mathE(s, 4, X(A(0), w)))); return; case Intrinsic::exp: R(L(mathE(s, 5, X(A(0), w)))); return; case Intrinsic::log: R(L(mathE(s, 6, X(A(0), w)))); return; case Intrinsic::log10: R(L(mathE(s, 7, X(A(0), w)))); return; case Intrinsic::log2: R(L(mathE(s, 8, X(A(0), w)))); return; case Intrinsic::sin: R(L(mathE(s, 9, X(A(0), w)))); return; case Intrinsic::cos: R(L(mathE(s, 10, X(A(0), w)))); return; case Intrinsic::exp2: R(L(mathE(s, 24, X(A(0), w)))); return;
    case Intrinsic::pow: { bool ok; E r = mkFPure2(std::pow, X(A(0), w), X(A(1), w), ok); if (!ok) { uint64_t a = concretize(s, A(0), w), b = concretize(s, A(1), w); r = mkFPure2(std::pow, mkConst(a, w), mkConst(b, w), ok); } R(L(r)); return; }
    case Intrinsic::fmuladd: R(L(mkF2(K_FADD, mkF2(K_FMUL, X(A(0), w), X(A(1), w)), X(A(2), w)))); return;
    case Intrinsic::copysign: { E x = X(A(0), w), y = X(A(1), w); R(L(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); return; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { E x = X(A(0), w), y = X(A(1), w); E lt = mkFCmp(K_FLT, x, y); E r = I.sub == Intrinsic::maxnum ? mkIte(lt, y, x) : mkIte(lt, x, y); r = mkIte(mkFIsNan(x), y, mkIte(mkFIsNan(y), x, r)); R(L(r)); return; }
    case Intrinsic::is_fpclass: { uint64_t m = A(1).c; E x = X(A(0), aw); E nan = mkFIsNan(x); E inf = mkFCmp(K_FEQ, mkF1(K_FABS, x), mkConst(aw == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, aw)); E r = mkConst(0, 1); if ((m & 3) == 3) r = mkOr(r, nan); if ((m & 0x204) == 0x204) r = mkOr(r, inf); if ((m & ~0x207ull) && (m & ~0x207ull) != 0x1f8) err(s, "engine", "is.fpclass"); if ((m & 0x1f8) == 0x1f8) r = mkOr(r, mkAnd(mkNot(nan), mkNot(inf))); R(L(r)); return; }
    default: err(s, "engine", "unsupported intrinsic " + I.callee->name);
    }
}
