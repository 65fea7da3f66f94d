#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cstdlib>

SolverStats g_sstats;
static Z3_context C; static Z3_solver S; static unsigned g_soft, g_hard;
static bool g_err = false;
// every query runs in a fresh solver; each condition is behind a Boolean literal, so that a refutation names the ones it used
static std::unordered_map<uint32_t, Z3_ast> g_lit;
static std::unordered_map<Z3_ast, uint32_t> g_litId;
static std::vector<char> g_varDone;
static bool g_noSlice = false;
// refutations found so far: condition -> sets of path conditions it contradicts
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> g_cores;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); g_err = true; abort(); }

static unsigned bl(u128 v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b; }
static unsigned sbl(i128 lo, i128 hi) { auto f = [](i128 v) { return bl(v < 0 ? (u128)~v : (u128)v) + 1; }; return std::max(f(lo), f(hi)); }
static void need(E e, unsigned& bits, bool& sg) {
    sg = false; bits = bl(e->uhi); if (e->slo < 0) { unsigned s = sbl(e->slo, e->shi); if (s < bits) { bits = s; sg = true; } }
    if (!bits) bits = 1; if (bits > e->w) { bits = e->w; }
}
// The context is a non-rc one: every term lives until the context is replaced.
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast cst(u128 v, unsigned w) {
    v &= maskw(w);
    if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(w));
    std::string s; if (!v) s = "0"; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end());
    return Z3_mk_numeral(C, s.c_str(), bvs(w));
}
static Z3_ast resize(Z3_ast a, unsigned from, unsigned to, bool sg) {
    if (from == to) return a; if (from > to) return Z3_mk_extract(C, to - 1, 0, a);
    return sg ? Z3_mk_sign_ext(C, to - from, a) : Z3_mk_zero_ext(C, to - from, a);
}
struct Key { uint32_t id; uint32_t m; bool operator==(const Key& o) const { return id == o.id && m == o.m; } };
struct KH { size_t operator()(const Key& k) const { return k.id * 0x9E3779B97F4A7C15ULL + k.m * 1315423911u; } };
static std::unordered_map<Key, Z3_ast, KH> g_memo;
static std::vector<Z3_ast> g_varAst;
static Z3_ast low(E e, unsigned m);
static Z3_ast boolT(E e);
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(C); }
static Z3_ast fp(E e);
static Z3_ast fp1(E e) {
    auto K = [&](unsigned i) { return fp(e->kid[i]); };
    switch (e->k) {
    case K_FADD: return Z3_mk_fpa_add(C, rne(), K(0), K(1)); case K_FSUB: return Z3_mk_fpa_sub(C, rne(), K(0), K(1));
    case K_FMUL: return Z3_mk_fpa_mul(C, rne(), K(0), K(1)); case K_FDIV: return Z3_mk_fpa_div(C, rne(), K(0), K(1));
    case K_FNEG: return Z3_mk_fpa_neg(C, K(0)); case K_FABS: return Z3_mk_fpa_abs(C, K(0)); case K_FSQRT: return Z3_mk_fpa_sqrt(C, rne(), K(0));
    case K_FRND: { Z3_ast r = e->c == 0 ? Z3_mk_fpa_round_toward_negative(C) : e->c == 1 ? Z3_mk_fpa_round_toward_positive(C) : e->c == 2 ? Z3_mk_fpa_round_toward_zero(C) : e->c == 3 ? rne() : Z3_mk_fpa_round_nearest_ties_to_away(C); return Z3_mk_fpa_round_to_integral(C, r, K(0)); }
    case K_SI2F: return Z3_mk_fpa_to_fp_signed(C, rne(), low(e->kid[0], e->kid[0]->w), fps(e->w));
    case K_UI2F: return Z3_mk_fpa_to_fp_unsigned(C, rne(), low(e->kid[0], e->kid[0]->w), fps(e->w));
    case K_FEXT: case K_FTRUNC: return Z3_mk_fpa_to_fp_float(C, rne(), K(0), fps(e->w));
    case K_ITE: return Z3_mk_ite(C, boolT(e->kid[0]), K(1), K(2));
    default: return Z3_mk_fpa_to_fp_bv(C, low(e, e->w), fps(e->w));
    }
}
static Z3_ast fp(E e) { Key k{e->id, 1000u}; auto it = g_memo.find(k); if (it != g_memo.end()) return it->second; Z3_ast r = keep(fp1(e)); g_memo[k] = r; return r; }

static Z3_ast low1(E e, unsigned m) {
    auto K = [&](unsigned i) { return low(e->kid[i], m); };
    // both operands at a common width that represents their exact (unsigned) values
    auto both = [&](unsigned& W, Z3_ast& a, Z3_ast& b, bool sg) {
        E x = e->kid[0], y = e->kid[1];
        if (!sg) W = std::max(1u, std::max(bl(x->uhi), bl(y->uhi))); else W = std::max(sbl(x->slo, x->shi), sbl(y->slo, y->shi));
        if (W > x->w) W = x->w; a = low(x, W); b = low(y, W);
    };
    switch (e->k) {
    case K_CONST: return cst(e->c, m);
    case K_VAR: { size_t i = (size_t)e->c; if (g_varAst.size() <= i) g_varAst.resize(i + 1); unsigned bits; bool sg; need(e, bits, sg);
        if (!g_varAst[i]) { Z3_symbol s = Z3_mk_string_symbol(C, ("v" + std::to_string(i)).c_str()); g_varAst[i] = keep(Z3_mk_const(C, s, bvs(bits))); }
        return resize(g_varAst[i], bits, m, sg); }
    case K_SUM: {
        Z3_ast r = nullptr, neg = nullptr;
        auto acc = [&](Z3_ast& R, Z3_ast x) { R = R ? Z3_mk_bvadd(C, R, x) : x; };
        for (unsigned i = 0; i < e->n; i++) {
            u128 k = e->coef[i] & maskw(m); if (!k) continue;
            u128 nk = ((u128)0 - e->coef[i]) & maskw(m); bool ng = nk < k; if (ng) k = nk;
            Z3_ast x = K(i);
            if (k != 1) { unsigned tz = 0; while (!((k >> tz) & 1)) tz++; if ((k >> tz) == 1) x = Z3_mk_bvshl(C, x, cst(tz, m)); else x = Z3_mk_bvmul(C, cst(k, m), x); }
            acc(ng ? neg : r, x);
        }
        u128 c = e->c & maskw(m); if (c || !r) acc(r, cst(c, m));
        return neg ? Z3_mk_bvsub(C, r, neg) : r; }
    case K_MUL: { Z3_ast r = K(0); for (unsigned i = 1; i < e->n; i++) r = Z3_mk_bvmul(C, r, K(i)); return r; }
    case K_AND: if (e->w > 1) return Z3_mk_bvand(C, K(0), K(1)); break;
    case K_OR: if (e->w > 1) return Z3_mk_bvor(C, K(0), K(1)); break;
    case K_XOR: if (e->w > 1) return Z3_mk_bvxor(C, K(0), K(1)); break;
    case K_UDIV: { unsigned W; Z3_ast a, b; both(W, a, b, false); return resize(Z3_mk_bvudiv(C, a, b), W, m, false); }
    case K_UREM: { unsigned W; Z3_ast a, b; both(W, a, b, false); return resize(Z3_mk_bvurem(C, a, b), W, m, false); }
    case K_SDIV: { unsigned W; Z3_ast a, b; both(W, a, b, true); W = std::min<unsigned>(W + 1, e->w); a = low(e->kid[0], W); b = low(e->kid[1], W); return resize(Z3_mk_bvsdiv(C, a, b), W, m, true); }
    case K_SREM: { unsigned W; Z3_ast a, b; both(W, a, b, true); W = std::min<unsigned>(W + 1, e->w); a = low(e->kid[0], W); b = low(e->kid[1], W); return resize(Z3_mk_bvsrem(C, a, b), W, m, true); }
    case K_SHL: return resize(Z3_mk_bvshl(C, low(e->kid[0], e->w), low(e->kid[1], e->w)), e->w, m, false);
    case K_LSHR: return resize(Z3_mk_bvlshr(C, low(e->kid[0], e->w), low(e->kid[1], e->w)), e->w, m, false);
    case K_ASHR: return resize(Z3_mk_bvashr(C, low(e->kid[0], e->w), low(e->kid[1], e->w)), e->w, m, true);
    case K_CONCAT: { unsigned lw = e->kid[1]->w; if (m <= lw) return low(e->kid[1], m); return Z3_mk_concat(C, low(e->kid[0], m - lw), low(e->kid[1], lw)); }
    case K_EXTRACT: { unsigned lo = (unsigned)e->c; if (!lo) return low(e->kid[0], m); Z3_ast a = low(e->kid[0], lo + m); return Z3_mk_extract(C, lo + m - 1, lo, a); }
    case K_ZEXT: { E x = e->kid[0]; if (m <= x->w) return low(x, m); return resize(low(x, x->w), x->w, m, false); }
    case K_SEXT: { E x = e->kid[0]; if (m <= x->w) return low(x, m); return resize(low(x, x->w), x->w, m, true); }
    case K_ITE: if (e->w > 1) return Z3_mk_ite(C, boolT(e->kid[0]), K(1), K(2)); break;
    case K_TAB: { E I = e->kid[0]; i128 lo = sxt(e->c, 128); unsigned W = std::max(sbl(I->slo, I->shi), sbl(lo, lo + (i128)e->n)); if (W > I->w) W = I->w; Z3_ast x = low(I, W);
        // binary decision on the signed index over runs of equal values
        struct Run { i128 start; uint64_t v; }; std::vector<Run> rs; for (unsigned i = 0; i < e->n; i++) if (!i || e->tab[i] != e->tab[i - 1]) rs.push_back({lo + (i128)i, e->tab[i]});
        auto rec = [&](auto&& self, size_t a, size_t b) -> Z3_ast { if (b - a == 1) return cst(rs[a].v, m); size_t mid = (a + b) / 2; return Z3_mk_ite(C, Z3_mk_bvslt(C, x, cst((u128)rs[mid].start, W)), self(self, a, mid), self(self, mid, b)); };
        return rec(rec, 0, rs.size()); }
    case K_F2SI: return resize(Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_round_toward_zero(C), fp(e->kid[0]), e->w), e->w, m, false);
    case K_F2UI: return resize(Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_round_toward_zero(C), fp(e->kid[0]), e->w), e->w, m, false);
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FNEG: case K_FABS: case K_FSQRT: case K_FRND: case K_SI2F: case K_UI2F: case K_FEXT: case K_FTRUNC:
        return resize(Z3_mk_fpa_to_ieee_bv(C, fp(e)), e->w, m, false);
    default: break;
    }
    return Z3_mk_ite(C, boolT(e), cst(1, m), cst(0, m));
}
static Z3_ast low(E e, unsigned m) {
    if (e->k == K_CONST) return cst(e->c, m);
    Key k{e->id, m}; auto it = g_memo.find(k); if (it != g_memo.end()) return it->second;
    unsigned bits; bool sg; need(e, bits, sg); Z3_ast r;
    if (m > bits && e->k != K_VAR) r = resize(low(e, bits), bits, m, sg); else r = low1(e, m);
    keep(r); g_memo[k] = r; return r;
}
static Z3_ast bool1(E e) {
    switch (e->k) {
    case K_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
    case K_NOT: return Z3_mk_not(C, boolT(e->kid[0]));
    case K_AND: case K_OR: { Z3_ast a[2] = {boolT(e->kid[0]), boolT(e->kid[1])}; return e->k == K_AND ? Z3_mk_and(C, 2, a) : Z3_mk_or(C, 2, a); }
    case K_XOR: return Z3_mk_xor(C, boolT(e->kid[0]), boolT(e->kid[1]));
    case K_ITE: return Z3_mk_ite(C, boolT(e->kid[0]), boolT(e->kid[1]), boolT(e->kid[2]));
    case K_EQ: { E a = e->kid[0], b = e->kid[1]; unsigned W = std::min(std::max(1u, std::max(bl(a->uhi), bl(b->uhi))), std::max(sbl(a->slo, a->shi), sbl(b->slo, b->shi))); if (W > a->w) W = a->w; return Z3_mk_eq(C, low(a, W), low(b, W)); }
    case K_ULT: { E a = e->kid[0], b = e->kid[1]; unsigned W = std::max(1u, std::max(bl(a->uhi), bl(b->uhi))); if (W > a->w) W = a->w; return Z3_mk_bvult(C, low(a, W), low(b, W)); }
    case K_SLT: { E a = e->kid[0], b = e->kid[1]; unsigned W = std::max(sbl(a->slo, a->shi), sbl(b->slo, b->shi)); if (W > a->w) W = a->w; return Z3_mk_bvslt(C, low(a, W), low(b, W)); }
    case K_FEQ: return Z3_mk_fpa_eq(C, fp(e->kid[0]), fp(e->kid[1])); case K_FLT: return Z3_mk_fpa_lt(C, fp(e->kid[0]), fp(e->kid[1])); case K_FLE: return Z3_mk_fpa_leq(C, fp(e->kid[0]), fp(e->kid[1]));
    case K_FISNAN: return Z3_mk_fpa_is_nan(C, fp(e->kid[0]));
    default: return Z3_mk_eq(C, low1(e, 1), cst(1, 1));
    }
}
static Z3_ast boolT(E e) { Key k{e->id, 2000u}; auto it = g_memo.find(k); if (it != g_memo.end()) return it->second; Z3_ast r = keep(bool1(e)); g_memo[k] = r; return r; }

static Z3_ast rangeOf(uint32_t v) {
    E e = g_vars[v].e; unsigned bits; bool sg; need(e, bits, sg); Z3_ast x = low(e, bits);
    if (g_vars[v].lo == 0 && g_vars[v].hi == maskw(bits)) return nullptr;
    if (sg) { Z3_ast a[2] = {Z3_mk_bvsle(C, cst((u128)e->slo, bits), x), Z3_mk_bvsle(C, x, cst((u128)e->shi, bits))}; return Z3_mk_and(C, 2, a); }
    Z3_ast a[2] = {Z3_mk_bvule(C, cst(e->ulo, bits), x), Z3_mk_bvule(C, x, cst(e->uhi, bits))}; return Z3_mk_and(C, 2, a);
}
static Z3_ast literal(E e) {
    auto it = g_lit.find(e->id); if (it != g_lit.end()) return it->second;
    for (uint32_t v : exprVars(e)) { if (g_varDone.size() <= v) g_varDone.resize(v + 1, 0); if (g_varDone[v]) continue; g_varDone[v] = 1; Z3_ast r = rangeOf(v); if (r) Z3_solver_assert(C, S, r); }
    Z3_ast l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C));
    Z3_solver_assert(C, S, Z3_mk_implies(C, l, boolT(e))); g_lit[e->id] = l; g_litId[l] = e->id; return l;
}
static void newContext() {
    if (C) { if (S) Z3_solver_dec_ref(C, S); S = nullptr; Z3_del_context(C); }
    g_memo.clear(); for (auto& a : g_varAst) a = nullptr;
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onErr);
}
static void newSolver() {
    if (S) Z3_solver_dec_ref(C, S);
    S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, getenv("SYMX_LOGIC") ? getenv("SYMX_LOGIC") : "QF_BV")); Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_soft); if (getenv("SYMX_MIN")) Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "core.minimize"), true); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
    g_lit.clear(); g_litId.clear(); g_varDone.clear();
}
void solverInit(unsigned softMs, unsigned hardMs) {
    g_soft = softMs; g_hard = hardMs; newContext(); newSolver();
}
static bool hasFp(E e) { static std::unordered_map<E, bool> m; auto it = m.find(e); if (it != m.end()) return it->second; bool r = e->k >= K_FADD; unsigned nk = e->k == K_TAB ? 1 : e->k == K_CONST ? 0 : e->n; for (unsigned i = 0; i < nk && !r; i++) r = hasFp(e->kid[i]); m[e] = r; return r; }
static void getModel(Z3_model md, const std::vector<uint32_t>& vars, std::vector<uint64_t>& model) {
    for (uint32_t v : vars) {
        E e = g_vars[v].e; unsigned bits; bool sg; need(e, bits, sg); Z3_ast out; if (model.size() <= v) { size_t o = model.size(); model.resize(v + 1); for (; o <= v; o++) model[o] = (uint64_t)g_vars[o].lo; }
        if (v >= g_varAst.size() || !g_varAst[v]) continue;
        if (!Z3_model_eval(C, md, g_varAst[v], true, &out)) continue; uint64_t x = 0; if (Z3_get_numeral_uint64(C, out, &x)) model[v] = sg ? (uint64_t)(sxt(x, bits) & maskw(e->w)) : x;
    }
}
static uint64_t g_since = 0;
extern double timeLeft();
Sat solverCheck(PC* path, E extra, std::vector<uint64_t>& model) {
    auto t0 = std::chrono::steady_clock::now(); g_sstats.queries++;
    if (++g_since > 20000 || g_memo.size() > 400000) { // bound the memory of a long incremental session
        newContext(); newSolver(); g_since = 0;
    }
    int d = path ? path->depth : 0; std::vector<PC*> want(d); for (PC* p = path; p; p = p->parent) want[p->depth - 1] = p;
    std::unordered_set<uint32_t> on; for (PC* p : want) on.insert(p->e->id);
    if (extra) { auto it = g_cores.find(extra->id); if (it != g_cores.end()) for (auto& c : it->second) { bool all = true; for (uint32_t i : c) if (!on.count(i)) { all = false; break; } if (all) { g_sstats.unsat++; g_sstats.cached++; return Sat::No; } } }
    // only the conditions that share variables with the query, directly or through others, can matter
    std::vector<PC*> all = want;
    if (extra && !g_noSlice) {
        std::unordered_set<uint32_t> vs(exprVars(extra).begin(), exprVars(extra).end()); std::vector<char> in(want.size(), 0); bool ch = true;
        while (ch) { ch = false; for (size_t i = 0; i < want.size(); i++) if (!in[i]) { auto& v = exprVars(want[i]->e); bool hit = false; for (uint32_t x : v) if (vs.count(x)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; vs.insert(v.begin(), v.end()); } } }
        std::vector<PC*> sl; for (size_t i = 0; i < want.size(); i++) if (in[i]) sl.push_back(want[i]); want.swap(sl);
    }
    bool fpq = extra && hasFp(extra); for (size_t i = 0; i < want.size() && !fpq; i++) fpq = hasFp(want[i]->e);
    Z3_lbool r = Z3_L_UNDEF; Z3_model md = nullptr;
    std::vector<uint32_t> vars; auto addv = [&](E e) { auto& k = exprVars(e); vars.insert(vars.end(), k.begin(), k.end()); };
    for (PC* p : want) addv(p->e); if (extra) addv(extra); std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    if (!fpq) {
        newSolver();
        std::vector<Z3_ast> as; for (PC* p : want) as.push_back(literal(p->e)); if (extra) as.push_back(literal(extra));
        r = Z3_solver_check_assumptions(C, S, as.size(), as.data());
        if (r == Z3_L_TRUE) { md = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, md); getModel(md, vars, model); Z3_model_dec_ref(C, md); }
        if (r == Z3_L_FALSE && extra) { Z3_ast_vector v = Z3_solver_get_unsat_core(C, S); Z3_ast_vector_inc_ref(C, v); std::vector<uint32_t> c; for (unsigned i = 0; i < Z3_ast_vector_size(C, v); i++) { auto it = g_litId.find(Z3_ast_vector_get(C, v, i)); if (it != g_litId.end() && it->second != extra->id) c.push_back(it->second); } Z3_ast_vector_dec_ref(C, v); auto& k = g_cores[extra->id]; if (k.size() < 8) k.push_back(c); }
    }
    if (r == Z3_L_UNDEF) { // one-shot, with the full tactic
        g_sstats.fallback++;
        Z3_tactic t = Z3_mk_tactic(C, fpq ? "qffp" : "qfbv"); Z3_tactic_inc_ref(C, t); Z3_solver F = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, F);
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)std::max(1000.0, std::min((double)g_hard, 1000 * timeLeft() + 3000))); Z3_solver_set_params(C, F, p); Z3_params_dec_ref(C, p);
        for (uint32_t v : vars) { Z3_ast a = rangeOf(v); if (a) Z3_solver_assert(C, F, a); }
        for (PC* q : want) Z3_solver_assert(C, F, boolT(q->e)); if (extra) Z3_solver_assert(C, F, boolT(extra));
        r = Z3_solver_check(C, F);
        if (r == Z3_L_TRUE) { md = Z3_solver_get_model(C, F); Z3_model_inc_ref(C, md); getModel(md, vars, model); Z3_model_dec_ref(C, md); }
        Z3_solver_dec_ref(C, F); Z3_tactic_dec_ref(C, t);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_sstats.time += dt; g_sstats.maxTime = std::max(g_sstats.maxTime, dt);
    if (getenv("SYMX_SLOW") && dt > 0.5) { fprintf(stderr, "slow query %.2fs depth %d res %d extra %s\n", dt, d, (int)r, extra ? exprStr(extra, 8).substr(0, 1500).c_str() : "-"); for (PC* q : want) fprintf(stderr, "   pc %s\n", exprStr(q->e, 6).substr(0, 300).c_str()); }
    if (r == Z3_L_TRUE) { // the model is validated against the expressions themselves
        if (all.size() != want.size()) { bool ok = true; for (PC* q : all) if (!evalExpr(q->e, model)) ok = false; if (!ok) { g_noSlice = true; Sat x = solverCheck(path, extra, model); g_noSlice = false; return x; } }
        bool ok = true; for (PC* q : want) if (!evalExpr(q->e, model)) ok = false; if (extra && !evalExpr(extra, model)) ok = false;
        if (!ok) { fprintf(stderr, "model validation failed\n"); for (PC* q : want) if (!evalExpr(q->e, model)) fprintf(stderr, "  false: %s\n", exprStr(q->e, 10).c_str()); if (extra && !evalExpr(extra, model)) fprintf(stderr, "  false: %s\n", exprStr(extra, 10).c_str()); if (!fpq) abort(); g_sstats.unknown++; return Sat::Unknown; }
        g_sstats.sat++; return Sat::Yes; }
    if (r == Z3_L_FALSE) { g_sstats.unsat++; return Sat::No; }
    g_sstats.unknown++; return Sat::Unknown;
}
