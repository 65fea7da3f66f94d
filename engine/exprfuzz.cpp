// Self-test of the expression layer: random operations are applied both to simplified expressions and to
// concrete values under K assignments; every node must evaluate to the concrete value and lie in its range.
#include "expr.h"
#ifdef WITH_SOLVER
#include "solver.h"
#endif
#include <random>
#include <cstdio>
#include <cmath>
#include <cstdlib>
static const int K = 24;
struct T { E e; u128 v[K]; bool fp; };
static std::mt19937_64 rng;
static std::vector<std::vector<uint64_t>> models(K);
static uint64_t R(uint64_t n) { return rng() % n; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static void dump(const char* op, E e, int j, u128 want, u128 got) {
    printf("MISMATCH %s w=%d model %d want %llx got %llx\n  %s\n", op, e->w, j, (unsigned long long)want, (unsigned long long)got, exprStr(e, 12).c_str()); exit(1);
}
static void check(const char* op, T& t) {
    u128 m = maskw(t.e->w);
    for (int j = 0; j < K; j++) {
        t.v[j] &= m; u128 g = evalExpr(t.e, models[j]);
        if (t.fp && std::isnan(asD(t.v[j])) && std::isnan(asD(g))) { t.v[j] = g; continue; }
        if (t.fp && asD(t.v[j]) == 0 && asD(g) == 0) { }
        else if (g != t.v[j]) dump(op, t.e, j, t.v[j], g);
#ifdef WITH_SOLVER
        if (j == 0 && !t.fp && R(4) == 0) { // the translation agrees with the evaluator: vars fixed to the model, e != value must be unsatisfiable, e == value satisfiable
            PC* p = nullptr; for (uint32_t v : exprVars(t.e)) { PC* q = new PC{mkEq(g_vars[v].e, mkConst(models[j][v], g_vars[v].w)), p, p ? p->depth + 1 : 1, 1}; p = q; }
            std::vector<uint64_t> md; E q = mkEq(t.e, mkConst(g, t.e->w)); if (!q->isConst()) {
            if (solverCheck(p, mkNot(q), md) == Sat::Yes) dump("z3 ne", t.e, j, g, evalExpr(t.e, md)); if (solverCheck(p, q, md) == Sat::No) dump("z3 eq", t.e, j, g, g); }
            pcUnref(p); }
#endif
        if (g < t.e->ulo || g > t.e->uhi || sxt(g, t.e->w) < t.e->slo || sxt(g, t.e->w) > t.e->shi) { printf("range [%lld,%lld]\n", (long long)t.e->slo, (long long)t.e->shi); dump("range", t.e, j, g, g); }
    }
}
#ifdef WITH_SOLVER
double timeLeft() { return 1e6; }
#endif
int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? atoll(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 200;
    #ifdef WITH_SOLVER
    solverInit(200, 300);
#endif
    for (int rd = 0; rd < rounds; rd++) {
        rng.seed(seed * 1000003 + rd);
        std::vector<T> pool; int nv = 2 + R(4);
        for (int i = 0; i < nv; i++) {
            unsigned ws[] = {1, 8, 8, 16, 32, 32, 64, 64}; unsigned w = ws[R(8)]; u128 lo = 0, hi = maskw(w);
            if (w > 1 && R(3)) { lo = R(12); hi = lo + R(R(2) ? 12 : 200); if (w == 64 && R(3) == 0) { lo = 0; hi = (u128)1 << R(40); } hi &= maskw(w); if (hi < lo) hi = lo; }
            std::string nm = "r" + std::to_string(rd) + "v" + std::to_string(i);
            T t; t.e = mkVar(nm, w, lo, hi); t.fp = false; size_t id = (size_t)t.e->c;
            for (int j = 0; j < K; j++) { u128 span = hi - lo; u128 x = R(4) == 0 ? (R(2) ? lo : hi) : span >= maskw(64) ? lo + rng() : lo + (rng() % (uint64_t)(span + 1)); x &= maskw(w); models[j].resize(id + 1); models[j][id] = (uint64_t)x; t.v[j] = x; }
            check("var", t); pool.push_back(t);
        }
        for (int st = 0; st < 90; st++) {
            T a = pool[R(2) ? R(pool.size()) : pool.size() - 1 - R(std::min<size_t>(pool.size(), 6))]; unsigned w = a.e->w; T b; bool have = false;
            if (R(3)) for (int k = 0; k < 12; k++) { T& c = pool[R(pool.size())]; if (c.e->w == w && c.fp == a.fp) { b = c; have = true; break; } }
            if (!have) { u128 c; if (a.fp) c = fromD(R(2) ? (double)(int64_t)R(20) - 5 : (double)(int)R(1000) / 8 - 20); else { uint64_t cs[] = {0, 1, 2, 3, 7, 9, 10, 10, 100, 4, 8, 16, 255, ~0ull, ~0ull - 9, R(1000), rng()}; c = cs[R(17)]; }
                b.e = mkConst(c, w); b.fp = a.fp; for (int j = 0; j < K; j++) b.v[j] = c & maskw(w); if (R(6) == 0) std::swap(a, b); }
            T r; r.fp = false; const char* op = "?"; bool skip = false;
            if (a.fp) {
                switch (R(12)) {
#define FB(nm, KK, X) op = nm; r.e = mkF2(KK, a.e, b.e); r.fp = true; for (int j = 0; j < K; j++) { double x = asD(a.v[j]), y = asD(b.v[j]); r.v[j] = fromD(X); }
                case 0: FB("fadd", K_FADD, x + y) break; case 1: FB("fsub", K_FSUB, x - y) break; case 2: FB("fmul", K_FMUL, x * y) break; case 3: case 4: FB("fdiv", K_FDIV, x / y) break;
                case 5: { unsigned c = R(5); op = "frnd"; r.e = mkF1(K_FRND, a.e, c); r.fp = true; for (int j = 0; j < K; j++) { double x = asD(a.v[j]); r.v[j] = fromD(c == 0 ? floor(x) : c == 1 ? ceil(x) : c == 2 ? trunc(x) : c == 3 ? nearbyint(x) : round(x)); } break; }
                case 6: op = "feq"; r.e = mkFCmp(K_FEQ, a.e, b.e); for (int j = 0; j < K; j++) r.v[j] = asD(a.v[j]) == asD(b.v[j]); break;
                case 7: op = "flt"; r.e = mkFCmp(K_FLT, a.e, b.e); for (int j = 0; j < K; j++) r.v[j] = asD(a.v[j]) < asD(b.v[j]); break;
                case 8: op = "fle"; r.e = mkFCmp(K_FLE, a.e, b.e); for (int j = 0; j < K; j++) r.v[j] = asD(a.v[j]) <= asD(b.v[j]); break;
                case 9: { op = "f2si"; unsigned wo = R(2) ? 32 : 64; for (int j = 0; j < K; j++) { double x = asD(a.v[j]); if (!(fabs(x) < 1e9)) skip = true; else r.v[j] = (u128)(i128)x; } if (!skip) r.e = mkFConv(K_F2SI, a.e, wo); break; }
                case 10: { bool ok; op = "fpure"; r.e = mkFPure([](double d) { return std::floor(d / 3); }, a.e, ok); r.fp = true; for (int j = 0; j < K; j++) r.v[j] = fromD(std::floor(asD(a.v[j]) / 3)); if (!ok) skip = true; break; }
                case 11: op = "fneg"; r.e = mkF1(K_FNEG, a.e); r.fp = true; for (int j = 0; j < K; j++) r.v[j] = fromD(-asD(a.v[j])); break;
                }
            } else switch (R(w == 1 ? 8 : 28)) {
#define BIN(nm, MK, X) op = nm; r.e = MK(a.e, b.e); for (int j = 0; j < K; j++) { u128 x = a.v[j], y = b.v[j]; (void)x; (void)y; r.v[j] = (u128)(X); }
            case 0: BIN("add", mkAdd, x + y) break; case 1: BIN("sub", mkSub, x - y) break; case 2: BIN("mul", mkMul, x * y) break;
            case 3: BIN("and", mkAnd, x & y) break; case 4: BIN("or", mkOr, x | y) break; case 5: BIN("xor", mkXor, x ^ y) break;
            case 6: case 7: { T* c = nullptr; for (int k = 0; k < 20; k++) { T& q = pool[R(pool.size())]; if (q.e->w == 1) { c = &q; break; } } if (!c) { skip = true; break; } op = "ite"; T cc = *c; r.e = mkIte(cc.e, a.e, b.e); for (int j = 0; j < K; j++) r.v[j] = cc.v[j] ? a.v[j] : b.v[j]; break; }
            case 24: case 25: case 26: case 27: { // digit steps: x mod d and floor(x / d) of a signed x
                if (w < 16 || a.e->slo < -1000 || a.e->shi > 1000) { skip = true; break; } u128 d = R(2) ? 10 : 2 + R(6); bool rem = R(2); op = rem ? "cycle" : "floor";
                E q = mkSub(mkUDiv(mkAdd(a.e, mkConst(d * 1000, w)), mkConst(d, w)), mkConst(1000, w)); r.e = rem ? mkSub(a.e, mkScale(q, d)) : q;
                for (int j = 0; j < K; j++) { i128 x = sxt(a.v[j], w), f = (x + (i128)d * 1000) / (i128)d - 1000; r.v[j] = rem ? (u128)(x - (i128)d * f) : (u128)f; } break; }
            case 8: BIN("eq", mkEq, x == y) break; case 9: BIN("ult", mkUlt, x < y) break; case 10: BIN("slt", mkSlt, sxt(x, w) < sxt(y, w)) break;
#define NZ for (int j = 0; j < K; j++) if (!b.v[j]) skip = true; if (skip) break;
#define NM1 for (int j = 0; j < K; j++) if (b.v[j] == maskw(w)) skip = true; if (skip) break;
            case 11: NZ BIN("udiv", mkUDiv, x / y) break; case 12: NZ BIN("urem", mkURem, x % y) break;
            case 13: NZ NM1 BIN("sdiv", mkSDiv, sxt(x, w) / sxt(y, w)) break; case 14: NZ NM1 BIN("srem", mkSRem, sxt(x, w) % sxt(y, w)) break;
            case 15: BIN("shl", mkShl, y >= w ? 0 : x << (unsigned)y) break; case 16: BIN("lshr", mkLShr, y >= w ? 0 : x >> (unsigned)y) break; case 17: BIN("ashr", mkAShr, sxt(x, w) >> (y >= w ? w - 1 : (unsigned)y)) break;
            case 18: { unsigned nw = w * 2; if (w >= 64 && R(4)) { skip = true; break; } op = "zext"; r.e = mkZExt(a.e, nw); for (int j = 0; j < K; j++) r.v[j] = a.v[j]; break; }
            case 19: { unsigned nw = w * 2; if (w >= 64 && R(4)) { skip = true; break; } op = "sext"; r.e = mkSExt(a.e, nw); for (int j = 0; j < K; j++) r.v[j] = (u128)sxt(a.v[j], w); break; }
            case 20: { unsigned nw = 1 + R(w); if (R(2) && w > 8) nw = w / 2; unsigned lo = R(w - nw + 1); if (nw != 1 && nw != 8 && nw != 16 && nw != 32 && nw != 64) { skip = true; break; } op = "extract"; r.e = mkExtract(a.e, lo, nw); for (int j = 0; j < K; j++) r.v[j] = a.v[j] >> lo; break; }
            case 21: { if (w > 32) { skip = true; break; } op = "concat"; r.e = mkConcat(a.e, b.e); for (int j = 0; j < K; j++) r.v[j] = (a.v[j] << w) | b.v[j]; break; }
            case 22: { if (w < 32) { skip = true; break; } op = "si2f"; r.e = mkFConv(K_SI2F, a.e, 64); r.fp = true; for (int j = 0; j < K; j++) r.v[j] = fromD((double)sxt(a.v[j], w)); break; }
            case 23: { // bytes split and rejoin
                if (w < 16 || w > 64) { skip = true; break; } op = "rejoin"; E x = mkExtract(a.e, 0, 8); for (unsigned i = 8; i < w; i += 8) x = mkConcat(mkExtract(a.e, i, 8), x); r.e = x; for (int j = 0; j < K; j++) r.v[j] = a.v[j]; break; }
            }
            if (skip) continue;
            check(op, r); if (r.e->w <= 128) pool.push_back(r);
        }
    }
    printf("ok %zu exprs\n", exprCount());
}
