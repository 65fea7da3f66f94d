#include "expr.h"
#include <algorithm>
#include <cmath>
#include <unordered_map>
#include <cassert>
#include <cstdlib>
#include <map>

std::vector<VarInfo> g_vars;
static const unsigned TABMAX = 1024;

// ---------------------------------------------------------------- interning
static std::vector<char*> g_pool; static size_t g_poolUsed = 0; static const size_t POOL = 1 << 20;
static void* palloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (n > POOL) { void* p = malloc(n); return p; }
    if (g_pool.empty() || g_poolUsed + n > POOL) { void* p; if (posix_memalign(&p, 16, POOL)) abort(); g_pool.push_back((char*)p); g_poolUsed = 0; }
    void* p = g_pool.back() + g_poolUsed; g_poolUsed += n; return p;
}
static std::vector<Expr*> g_table(1 << 16, nullptr); static size_t g_count = 0; static std::vector<Expr*> g_all;
size_t exprCount() { return g_count; }
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
static uint64_t hashOf(const Expr& e) {
    uint64_t h = mix(e.k * 1315423911u + e.w, (uint64_t)e.c); h = mix(h, (uint64_t)(e.c >> 64)); h = mix(h, e.n);
    if (e.k == K_TAB) { h = mix(h, e.kid[0]->id); for (unsigned i = 0; i < e.n; i++) h = mix(h, e.tab[i]); return h; }
    for (unsigned i = 0; i < e.n; i++) { h = mix(h, e.kid[i]->id); if (e.k == K_SUM) { h = mix(h, (uint64_t)e.coef[i]); h = mix(h, (uint64_t)(e.coef[i] >> 64)); } }
    return h;
}
static bool same(const Expr& a, const Expr& b) {
    if (a.k != b.k || a.w != b.w || a.c != b.c || a.n != b.n) return false;
    if (a.k == K_TAB) { if (a.kid[0] != b.kid[0]) return false; return memcmp(a.tab, b.tab, a.n * 8) == 0; }
    for (unsigned i = 0; i < a.n; i++) { if (a.kid[i] != b.kid[i]) return false; if (a.k == K_SUM && a.coef[i] != b.coef[i]) return false; }
    return true;
}
static void computeRange(Expr* e);
static E intern(Expr& t) {
    t.hash = hashOf(t);
    size_t m = g_table.size() - 1, i = t.hash & m;
    while (g_table[i]) { if (g_table[i]->hash == t.hash && same(*g_table[i], t)) return g_table[i]; i = (i + 1) & m; }
    Expr* e = new (palloc(sizeof(Expr))) Expr(t);
    e->id = g_count++;
    e->z3 = nullptr; e->vars = nullptr; e->evalStamp = 0; e->ivDone = 0; e->iv = nullptr;
    unsigned nk = t.k == K_TAB ? 1 : t.n;
    if (nk) { e->kid = (const Expr**)palloc(nk * sizeof(E)); memcpy(e->kid, t.kid, nk * sizeof(E)); }
    if (t.k == K_SUM) { e->coef = (u128*)palloc(t.n * sizeof(u128)); memcpy(e->coef, t.coef, t.n * sizeof(u128)); }
    if (t.k == K_TAB) { e->tab = (uint64_t*)palloc(t.n * 8); memcpy(e->tab, t.tab, t.n * 8); }
    computeRange(e);
    g_table[i] = e; g_all.push_back(e);
    if (g_count * 2 > g_table.size()) {
        std::vector<Expr*> nt(g_table.size() * 2, nullptr); size_t mm = nt.size() - 1;
        for (Expr* x : g_all) { size_t j = x->hash & mm; while (nt[j]) j = (j + 1) & mm; nt[j] = x; }
        g_table.swap(nt);
    }
    return e;
}
static E node(Kind k, unsigned w, std::initializer_list<E> kids, u128 c = 0) {
    Expr t; memset((void*)&t, 0, sizeof t); t.k = k; t.w = w; t.c = c; t.n = kids.size();
    E ks[4]; unsigned i = 0; for (E x : kids) ks[i++] = x; t.kid = ks; return intern(t);
}
E mkConst(u128 v, unsigned w) { Expr t; memset((void*)&t, 0, sizeof t); t.k = K_CONST; t.w = w; t.c = v & maskw(w); return intern(t); }
static std::map<std::string, E> g_varByName;
E mkVar(const std::string& name, unsigned w, u128 lo, u128 hi, bool undef) {
    std::string key = name + "/" + std::to_string(w) + "/" + std::to_string((uint64_t)lo) + "/" + std::to_string((uint64_t)hi);
    auto it = g_varByName.find(key); if (it != g_varByName.end()) return it->second;
    Expr t; memset((void*)&t, 0, sizeof t); t.k = K_VAR; t.w = w; t.c = g_vars.size(); g_vars.push_back({name, w, lo, hi, nullptr, undef});
    E e = intern(t); g_vars.back().e = e; g_varByName[key] = e; return e;
}

// ---------------------------------------------------------------- ranges
static inline bool addO(i128 a, i128 b, i128& r) { return __builtin_add_overflow(a, b, &r); }
static inline bool mulO(i128 a, i128 b, i128& r) { return __builtin_mul_overflow(a, b, &r); }
static inline i128 smin_(unsigned w) { return w >= 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)); }
static inline i128 smax_(unsigned w) { return w >= 128 ? (i128)(((u128)1 << 127) - 1) : ((i128)1 << (w - 1)) - 1; }
static void fixRange(Expr* e) {   // make unsigned and signed ranges consistent
    unsigned w = e->w; u128 half = (u128)1 << (w - 1);
    // unsigned -> signed
    if (e->uhi < half) { i128 l = (i128)e->ulo, h = (i128)e->uhi; if (l > e->slo) e->slo = l; if (h < e->shi) e->shi = h; }
    else if (e->ulo >= half) { i128 l = sxt(e->ulo, w), h = sxt(e->uhi, w); if (l > e->slo) e->slo = l; if (h < e->shi) e->shi = h; }
    // signed -> unsigned
    if (e->slo >= 0) { u128 l = (u128)e->slo, h = (u128)e->shi; if (l > e->ulo) e->ulo = l; if (h < e->uhi) e->uhi = h; }
    else if (e->shi < 0) { u128 l = (u128)e->slo & maskw(w), h = (u128)e->shi & maskw(w); if (l > e->ulo) e->ulo = l; if (h < e->uhi) e->uhi = h; }
}
static bool scaleI(i128 lo, i128 hi, i128 k, i128& rlo, i128& rhi) {
    i128 a, b; if (mulO(lo, k, a) || mulO(hi, k, b)) return false; rlo = std::min(a, b); rhi = std::max(a, b); return true;
}
// interval of a sum over the integers, false if unbounded
static bool sumInterval(unsigned w, u128 c, E const* kid, const u128* coef, unsigned n, i128& lo, i128& hi) {
    // group table terms with the same index and their linear part
    lo = hi = sxt(c, w);
    std::vector<bool> used; 
    bool hasTab = false; for (unsigned i = 0; i < n; i++) if (kid[i]->k == K_TAB) hasTab = true;
    std::vector<i128> rest;
    if (hasTab && n <= 64) {
        rest.resize(n); for (unsigned i = 0; i < n; i++) rest[i] = sxt(coef[i], w);
        for (unsigned i = 0; i < n; i++) if (kid[i]->k == K_TAB && rest[i] != 0) {
            E I = kid[i]->kid[0]; if (I->w != w || (I->k == K_SUM && !I->nsw)) continue;
            i128 alpha = 0; bool ok = true;
            // alpha from the first atom of I
            auto coefOf = [&](E a) -> int { for (unsigned j = 0; j < n; j++) if (kid[j] == a) return j; return -1; };
            if (I->k == K_SUM) {
                int j = coefOf(I->kid[0]); i128 q = sxt(I->coef[0], w);
                if (j < 0 || rest[j] == 0 || rest[j] % q) ok = false; else alpha = rest[j] / q;
                if (ok) for (unsigned t = 0; t < I->n && ok; t++) { int jj = coefOf(I->kid[t]); if (jj < 0 || rest[jj] != alpha * sxt(I->coef[t], w)) ok = false; }
            } else { int j = coefOf(I); if (j >= 0) alpha = rest[j]; }
            if (!ok) alpha = 0;
            i128 tlo = sxt(kid[i]->c, 128); unsigned cnt = kid[i]->n; bool first = true; i128 mn = 0, mx = 0;
            std::vector<unsigned> tabs; for (unsigned j = 0; j < n; j++) if (kid[j]->k == K_TAB && kid[j]->kid[0] == I && rest[j] != 0 && kid[j]->n == cnt && sxt(kid[j]->c, 128) == tlo) tabs.push_back(j);
            i128 ic = I->k == K_SUM ? sxt(I->c, w) : 0; bool bad = false;
            for (unsigned v = 0; v < cnt && !bad; v++) {
                i128 x = 0, y; if (mulO(alpha, tlo + v - ic, x)) { bad = true; break; }
                for (unsigned j : tabs) { if (mulO(rest[j], sxt(kid[j]->tab[v], w), y) || addO(x, y, x)) { bad = true; break; } }
                if (first) { mn = mx = x; first = false; } else { mn = std::min(mn, x); mx = std::max(mx, x); }
            }
            if (bad) return false;
            if (addO(lo, mn, lo) || addO(hi, mx, hi)) return false;
            for (unsigned j : tabs) rest[j] = 0;
            if (alpha != 0) { if (I->k == K_SUM) for (unsigned t = 0; t < I->n; t++) rest[coefOf(I->kid[t])] -= alpha * sxt(I->coef[t], w); else rest[coefOf(I)] -= alpha; }
        }
    }
    for (unsigned i = 0; i < n; i++) {
        i128 k = rest.empty() ? sxt(coef[i], w) : rest[i]; if (k == 0) continue;
        i128 a, b; if (!scaleI(kid[i]->slo, kid[i]->shi, k, a, b)) return false;
        if (addO(lo, a, lo) || addO(hi, b, hi)) return false;
    }
    return true;
}
static void computeRange(Expr* e) {
    unsigned w = e->w;
    e->ulo = 0; e->uhi = maskw(w); e->slo = smin_(w); e->shi = smax_(w); e->nsw = false;
    auto setU = [&](u128 l, u128 h) { e->ulo = l; e->uhi = h; };
    auto setS = [&](i128 l, i128 h) { e->slo = l; e->shi = h; };
    E a = e->n || e->k == K_TAB ? e->kid[0] : nullptr, b = e->k != K_TAB && e->n > 1 ? e->kid[1] : nullptr;
    switch (e->k) {
    case K_CONST: setU(e->c, e->c); setS(sxt(e->c, w), sxt(e->c, w)); break;
    case K_VAR: setU(g_vars[(size_t)e->c].lo, g_vars[(size_t)e->c].hi); break;
    case K_SUM: { i128 lo, hi; if (sumInterval(w, e->c, e->kid, e->coef, e->n, lo, hi)) {
            if (lo >= smin_(w) && hi <= smax_(w)) { setS(lo, hi); e->nsw = true; }
            else if (w < 127 && lo >= 0 && (u128)hi <= maskw(w)) setU((u128)lo, (u128)hi);
            else if (w <= 64 && lo > -((i128)1 << 100) && hi < ((i128)1 << 100)) { // common wrap: shift by a multiple of 2^w
                i128 M = (i128)1 << w; i128 q = lo >= 0 ? lo / M : -((-lo + M - 1) / M);
                i128 l2 = lo - q * M, h2 = hi - q * M; if (h2 < M) setU((u128)l2, (u128)h2);
                else { l2 -= M; h2 -= M; if (l2 >= smin_(w) && h2 <= smax_(w)) setS(l2, h2); }
            } } break; }
    case K_MUL: { i128 lo = a->slo, hi = a->shi; bool ok = true;
            for (unsigned i = 1; i < e->n && ok; i++) { E x = e->kid[i]; i128 p[4]; if (mulO(lo, x->slo, p[0]) || mulO(lo, x->shi, p[1]) || mulO(hi, x->slo, p[2]) || mulO(hi, x->shi, p[3])) { ok = false; break; }
                lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
            if (ok) { bool sq = e->n == 2 && e->kid[0] == e->kid[1]; if (sq && lo < 0) lo = 0;
                if (lo >= smin_(w) && hi <= smax_(w)) { setS(lo, hi); e->nsw = true; } else if (w < 127 && lo >= 0 && (u128)hi <= maskw(w)) setU((u128)lo, (u128)hi); }
            break; }
    case K_UDIV: if (b->isConst() && b->c) setU(a->ulo / b->c, a->uhi / b->c); else setU(0, maskw(w)); break;
    case K_UREM: if (b->isConst() && b->c) setU(0, std::min(a->uhi, b->c - 1)); else if (b->ulo > 0) setU(0, std::min(a->uhi, b->uhi - 1)); break;
    case K_SDIV: if (b->isConst() && b->c) { i128 d = sxt(b->c, w); if (d != -1) { i128 x = a->slo / d, y = a->shi / d; i128 l = std::min(x, y), h = std::max(x, y); if (a->slo <= 0 && a->shi >= 0) { l = std::min(l, (i128)0); h = std::max(h, (i128)0); } setS(l, h); } } break;
    case K_SREM: if (b->isConst() && b->c) { i128 d = sxt(b->c, w); if (d < 0) d = -d; if (d > 0) setS(a->slo >= 0 ? 0 : std::max(a->slo, -(d - 1)), a->shi <= 0 ? 0 : std::min(a->shi, d - 1)); }
        else if (b->slo > 0) setS(a->slo >= 0 ? 0 : -(b->shi - 1), a->shi <= 0 ? 0 : b->shi - 1); break;
    case K_AND: setU(0, std::min(a->uhi, b->uhi)); break;
    case K_OR: { u128 m = a->uhi | b->uhi; unsigned bits = 0; while (bits < w && (m >> bits)) bits++; setU(std::max(a->ulo, b->ulo), bits ? maskw(bits) : 0); break; }
    case K_XOR: { u128 m = a->uhi | b->uhi; unsigned bits = 0; while (bits < w && (m >> bits)) bits++; setU(0, bits ? maskw(bits) : 0); break; }
    case K_LSHR: setU(0, a->uhi); break;
    case K_ASHR: if (b->isConst()) { int sh = b->c >= w ? (int)w - 1 : (int)b->c; setS(a->slo >> sh, a->shi >> sh); } else setS(std::min(a->slo, (i128)0), std::max(a->shi, (i128)0)); break;
    case K_CONCAT: setU((a->ulo << b->w) | b->ulo, (a->uhi << b->w) | b->uhi); break;
    case K_EXTRACT: if (e->c == 0 && a->uhi <= maskw(w)) setU(a->ulo, a->uhi); else if (e->c && a->w <= 128) { u128 h = a->uhi >> (unsigned)e->c; if (h <= maskw(w)) setU(a->ulo >> (unsigned)e->c, h); }
        if (e->c == 0 && a->slo >= smin_(w) && a->shi <= smax_(w)) setS(a->slo, a->shi); break;
    case K_ZEXT: setU(a->ulo, a->uhi); break;
    case K_SEXT: setS(a->slo, a->shi); break;
    case K_ITE: setU(std::min(b->ulo, e->kid[2]->ulo), std::max(b->uhi, e->kid[2]->uhi)); setS(std::min(b->slo, e->kid[2]->slo), std::max(b->shi, e->kid[2]->shi)); break;
    case K_TAB: { u128 l = maskw(w), h = 0; i128 sl = smax_(w), sh = smin_(w); for (unsigned i = 0; i < e->n; i++) { u128 v = e->tab[i]; l = std::min(l, v); h = std::max(h, v); i128 s = sxt(v, w); sl = std::min(sl, s); sh = std::max(sh, s); } setU(l, h); setS(sl, sh); break; }
    default: break;
    }
    fixRange(e); fixRange(e);
}
static inline bool smallRange(E e, i128& lo, unsigned& n, unsigned maxn = TABMAX) {
    if (e->w > 64) return false;
    u128 span; if (__builtin_sub_overflow(e->shi, e->slo, (i128*)&span)) return false;
    if (span >= maxn) return false;
    lo = e->slo; n = (unsigned)span + 1; return true;
}

// ---------------------------------------------------------------- sums
struct Term { E e; u128 k; };
struct SumB; static bool joinTables(SumB& s);
struct SumB {
    unsigned w; u128 c = 0; std::vector<Term> t;
    SumB(unsigned w) : w(w) {}
    void add(E e, u128 k) {
        k &= maskw(w); if (!k) return;
        if (e->k == K_CONST) { c += k * e->c; return; }
        if (e->k == K_SUM) { c += k * e->c; for (unsigned i = 0; i < e->n; i++) t.push_back({e->kid[i], k * e->coef[i]}); return; }
        t.push_back({e, k});
    }
    void norm() {
        std::sort(t.begin(), t.end(), [](const Term& a, const Term& b) { return a.e->id < b.e->id; });
        size_t j = 0; u128 m = maskw(w);
        for (size_t i = 0; i < t.size();) { u128 k = 0; E e = t[i].e; while (i < t.size() && t[i].e == e) k += t[i++].k; k &= m; if (k) t[j++] = {e, k}; }
        t.resize(j); c &= m;
    }
    void tables() { for (int r = 0; r < 64 && joinTables(*this); r++) norm(); }
    E build() {
        norm();
        if (w > 1) for (int round = 0; round < 64; round++) {   // k*udiv(x,d) with d | k  ->  k/d * (x - urem(x,d))
            bool ch = false;
            for (size_t i = 0; i < t.size(); i++) { E e = t[i].e;
                if ((e->k == K_UDIV || e->k == K_SDIV) && e->kid[1]->isConst() && e->kid[1]->c > 1) {
                    i128 k = sxt(t[i].k, w), d = sxt(e->kid[1]->c, w); if (d <= 1 || k % d) continue;
                    E x = e->kid[0], r = e->k == K_UDIV ? mkURem(x, e->kid[1]) : mkSRem(x, e->kid[1]);
                    u128 q = (u128)(k / d); t.erase(t.begin() + i); add(x, q); add(r, (u128)0 - q); ch = true; break; } }
            if (!ch) break; norm();
        }
        if (w > 1 && w <= 64) tables();
        if (t.empty()) return mkConst(c, w);
        if (c == 0 && t.size() == 1 && t[0].k == 1) return t[0].e;
        std::vector<E> ks(t.size()); std::vector<u128> cs(t.size()); for (size_t i = 0; i < t.size(); i++) { ks[i] = t[i].e; cs[i] = t[i].k; }
        Expr x; memset((void*)&x, 0, sizeof x); x.k = K_SUM; x.w = w; x.c = c; x.n = t.size(); x.kid = ks.data(); x.coef = cs.data();
        E r = intern(x);
        if (r->slo == r->shi) return mkConst((u128)r->slo, w);
        return r;
    }
};
E mkAdd(E a, E b) {
    if (a->w == 1) return mkXor(a, b);
    if (a->isConst() && b->isConst()) return mkConst(a->c + b->c, a->w);
    SumB s(a->w); s.add(a, 1); s.add(b, 1); return s.build(); }
E mkSub(E a, E b) { if (a->w == 1) return mkXor(a, b); SumB s(a->w); s.add(a, 1); s.add(b, (u128)0 - 1); return s.build(); }
E mkNeg(E a) { return mkScale(a, (u128)0 - 1); }
E mkScale(E a, u128 k) { if (a->w == 1) return (k & 1) ? a : mkConst(0, 1); SumB s(a->w); s.add(a, k); return s.build(); }
static void monomial(E a, std::vector<E>& out) { if (a->k == K_MUL) for (unsigned i = 0; i < a->n; i++) out.push_back(a->kid[i]); else out.push_back(a); }
static E mulAtoms(E a, E b) {
    std::vector<E> ks; monomial(a, ks); monomial(b, ks);
    std::sort(ks.begin(), ks.end(), [](E x, E y) { return x->id < y->id; });
    Expr t; memset((void*)&t, 0, sizeof t); t.k = K_MUL; t.w = a->w; t.n = ks.size(); t.kid = ks.data(); return intern(t);
}
E mkMul(E a, E b) {
    unsigned w = a->w; if (w == 1) return mkAnd(a, b);
    if (a->isConst()) return mkScale(b, a->c); if (b->isConst()) return mkScale(a, b->c);
    if (a->k != K_SUM && b->k != K_SUM) return mulAtoms(a, b);
    unsigned na = a->k == K_SUM ? a->n + 1 : 1, nb = b->k == K_SUM ? b->n + 1 : 1;
    if ((uint64_t)na * nb > 4096) return mulAtoms(a, b);   // opaque: a SUM as factor
    SumB s(w);
    auto each = [&](E x, auto f) { if (x->k == K_SUM) { for (unsigned i = 0; i < x->n; i++) f(x->kid[i], x->coef[i]); if (x->c) f((E) nullptr, x->c); } else f(x, (u128)1); };
    each(a, [&](E x, u128 kx) { each(b, [&](E y, u128 ky) { if (!x && !y) s.c += kx * ky; else if (!x) s.add(y, kx * ky); else if (!y) s.add(x, kx * ky); else s.add(mulAtoms(x, y), kx * ky); }); });
    return s.build();
}

// ---------------------------------------------------------------- tables
struct TabV { E idx; i128 lo; std::vector<uint64_t> v; };
static bool asTab(E e, TabV& o, bool atom) {
    if (e->w > 64) return false;
    if (e->k == K_TAB) { o.idx = e->kid[0]; o.lo = sxt(e->c, 128); o.v.assign(e->tab, e->tab + e->n); return true; }
    if (e->k == K_SUM) {
        E T = nullptr; for (unsigned i = 0; i < e->n; i++) if (e->kid[i]->k == K_TAB) { T = e->kid[i]; break; }
        if (T && T->kid[0]->w == e->w) {
            E I = T->kid[0]; SumB s(e->w); s.add(e, 1); std::vector<std::pair<E, u128>> tabs;
            for (unsigned i = 0; i < e->n; i++) if (e->kid[i]->k == K_TAB && e->kid[i]->kid[0] == I && e->kid[i]->c == T->c && e->kid[i]->n == T->n) { tabs.push_back({e->kid[i], e->coef[i]}); s.add(e->kid[i], (u128)0 - e->coef[i]); }
            E rest = s.build(); u128 alpha = 0;
            if (!rest->isConst()) {
                E a0 = I->k == K_SUM ? I->kid[0] : I; i128 q = I->k == K_SUM ? sxt(I->coef[0], e->w) : 1; i128 k = 0;
                if (rest == a0) k = 1; else if (rest->k == K_SUM) for (unsigned i = 0; i < rest->n; i++) if (rest->kid[i] == a0) k = sxt(rest->coef[i], e->w);
                if (k == 0 || k % q) goto next; alpha = (u128)(k / q); rest = mkSub(rest, mkScale(I, alpha)); if (!rest->isConst()) goto next;
            }
            o.idx = I; o.lo = sxt(T->c, 128); o.v.clear();
            for (unsigned j = 0; j < T->n; j++) { u128 x = rest->c + alpha * (u128)(o.lo + j); for (auto& p : tabs) x += p.second * (u128)p.first->tab[j]; o.v.push_back((uint64_t)(x & maskw(e->w))); }
            return true;
        }
    next:
        if (e->n == 1) { i128 lo; unsigned n; E I = e->kid[0]; if (smallRange(I, lo, n, atom ? TABMAX : 16)) { o.idx = I; o.lo = lo; o.v.clear(); for (unsigned j = 0; j < n; j++) o.v.push_back((uint64_t)((e->c + e->coef[0] * (u128)(lo + j)) & maskw(e->w))); return true; } }
    }
    if (!atom || e->isConst()) return false;
    i128 lo; unsigned n; if (!smallRange(e, lo, n)) return false;
    o.idx = e; o.lo = lo; o.v.clear(); for (unsigned j = 0; j < n; j++) o.v.push_back((uint64_t)((u128)(lo + j) & maskw(e->w)));
    return true;
}
E mkTab(E idx, i128 lo, const std::vector<uint64_t>& vals_, unsigned w) {
    std::vector<uint64_t> v = vals_;
    if (idx->isConst()) { i128 i = sxt(idx->c, idx->w) - lo; assert(i >= 0 && i < (i128)v.size()); return mkConst(v[(size_t)i], w); }
    // strip a constant and normalise the sign of the index
    if (idx->k == K_SUM && idx->nsw) {
        i128 c = sxt(idx->c, idx->w);
        if (c) { SumB s(idx->w); s.add(idx, 1); s.c -= (u128)c; E j = s.build(); if (j->slo == idx->slo - c && j->shi == idx->shi - c) { idx = j; lo -= c; } }
        if (idx->k == K_SUM && sxt(idx->coef[0], idx->w) < 0) { E j = mkNeg(idx); if (j->slo == -idx->shi && j->shi == -idx->slo) { lo = -(lo + (i128)v.size() - 1); std::reverse(v.begin(), v.end()); idx = j; } }
    }
    // trim to the index range
    i128 a = std::max(lo, idx->slo), b = std::min(lo + (i128)v.size() - 1, idx->shi);
    if (a <= b && (a != lo || b != lo + (i128)v.size() - 1)) { v = std::vector<uint64_t>(v.begin() + (size_t)(a - lo), v.begin() + (size_t)(b - lo) + 1); lo = a; }
    size_t n = v.size(); bool all = true; for (size_t i = 1; i < n; i++) if (v[i] != v[0]) { all = false; break; }
    if (all) return mkConst(v[0], w);
    if (w == 1) {
        size_t runs = 1, brk = 0; for (size_t i = 1; i < n; i++) if (v[i] != v[i - 1]) { runs++; if (!brk) brk = i; }
        if (runs == 2 && n > 1 && !(idx->w == 1)) { E t = mkConst((u128)(lo + (i128)brk), idx->w); E lt = node(K_SLT, 1, {idx, t}); return v[0] ? lt : mkNot(lt); }
        if (idx->w == 1) { // index is a bool; signed range of w1 is {-1,0}
            return v[0] /*value at -1 == true*/ ? idx : mkNot(idx); }
        size_t ones = 0, p1 = 0, p0 = 0; for (size_t i = 0; i < n; i++) if (v[i]) { ones++; p1 = i; } else p0 = i;
        if (ones == 1) return node(K_EQ, 1, {idx, mkConst((u128)(lo + (i128)p1), idx->w)});
        if (ones == n - 1) return mkNot(node(K_EQ, 1, {idx, mkConst((u128)(lo + (i128)p0), idx->w)}));
    } else if (w <= 64 && idx->w > 1) { // affine?
        u128 d = (u128)v[1] - v[0]; bool aff = true; for (size_t i = 1; i < n && aff; i++) if (((v[i] - (u128)v[i - 1] - d) & maskw(w)) != 0) aff = false;
        if (aff) { E x = idx->w == w ? idx : idx->w < w ? mkSExt(idx, w) : mkExtract(idx, 0, w); i128 dd = sxt(d & maskw(w), w);
            if (idx->w <= w || true) { SumB s(w); s.add(x, (u128)dd); s.c += (u128)v[0] - (u128)dd * (u128)lo; return s.build(); } }
    }
    Expr t; memset((void*)&t, 0, sizeof t); t.k = K_TAB; t.w = w; t.c = (u128)lo; t.n = n; t.kid = &idx; t.tab = v.data(); return intern(t);
}
// Terms that are tables over one index become one table, together with a multiple of the index itself when that
// narrows the range (x - 10*floor(x/10) is in 0..9); a table that turns out affine dissolves into its index.
static bool joinTables(SumB& s) {
    for (size_t i = s.t.size(); i-- > 0;) { E T = s.t[i].e; if (T->k != K_TAB) continue; // outermost index first
        E I = T->kid[0]; std::vector<size_t> grp; bool first = true;
        for (size_t j = 0; j < s.t.size(); j++) { E U = s.t[j].e; if (U->k == K_TAB && U->kid[0] == I && U->c == T->c && U->n == T->n) { grp.push_back(j); if (j > i) first = false; } }
        if (!first) continue;
        u128 alpha = 0; std::vector<std::pair<E, u128>> base;
        if (I->w == s.w) {
            if (I->k == K_SUM) for (unsigned j = 0; j < I->n; j++) base.push_back({I->kid[j], I->coef[j]}); else base.push_back({I, 1});
            bool ok = true, have = false;
            for (auto& b : base) { u128 k = 0; for (auto& x : s.t) if (x.e == b.first) k = x.k; i128 ki = sxt(k, s.w), q = sxt(b.second, s.w); if (!ki || ki % q) { ok = false; break; } u128 a = (u128)(ki / q) & maskw(s.w); if (!have) { alpha = a; have = true; } else if (a != alpha) { ok = false; break; } }
            if (!ok || !have) alpha = 0;
        }
        if (grp.size() < 2 && !alpha) continue;
        auto table = [&](u128 al, std::vector<uint64_t>& v, i128& lo, i128& hi) { v.clear(); lo = hi = 0; for (unsigned j = 0; j < T->n; j++) { u128 x = al * (u128)(sxt(T->c, 128) + j); for (size_t g : grp) x += s.t[g].k * (u128)s.t[g].e->tab[j]; x &= maskw(s.w); v.push_back((uint64_t)x); i128 y = sxt(x, s.w); if (!j || y < lo) lo = y; if (!j || y > hi) hi = y; } };
        std::vector<uint64_t> v0, v1; i128 lo0, hi0, lo1, hi1; table(0, v0, lo0, hi0);
        bool pull = false;
        if (alpha) { table(alpha, v1, lo1, hi1); i128 ia = sxt(alpha, s.w), x = ia * I->slo, y = ia * I->shi; i128 span = (hi0 - lo0) + (x < y ? y - x : x - y); pull = hi1 - lo1 < span && (hi1 - lo1) * 2 <= span; }
        if (!pull && grp.size() < 2) continue;
        E r = mkTab(I, sxt(T->c, 128), pull ? v1 : v0, s.w);
        for (size_t g : grp) s.t[g].k = 0;
        if (pull) { for (auto& b : base) for (auto& x : s.t) if (x.e == b.first) x.k -= alpha * b.second; if (I->k == K_SUM) s.c -= alpha * I->c; }
        s.add(r, 1); return true; }
    return false;
}
template <class F> static E tab1(E a, unsigned w, F f, bool atom = false) { TabV t; if (!asTab(a, t, atom)) return nullptr; for (auto& x : t.v) x = (uint64_t)((u128)f((u128)x) & maskw(w)); return mkTab(t.idx, t.lo, t.v, w); }
template <class F> static E tab2(E a, E b, unsigned w, F f, bool atom = false) {
    TabV t, u;
    if (b->isConst()) { if (!asTab(a, t, atom)) return nullptr; for (auto& x : t.v) x = (uint64_t)((u128)f((u128)x, b->c) & maskw(w)); return mkTab(t.idx, t.lo, t.v, w); }
    if (a->isConst()) { if (!asTab(b, t, atom)) return nullptr; for (auto& x : t.v) x = (uint64_t)((u128)f(a->c, (u128)x) & maskw(w)); return mkTab(t.idx, t.lo, t.v, w); }
    if (asTab(a, t, false) && asTab(b, u, false) && t.idx == u.idx && t.lo == u.lo && t.v.size() == u.v.size()) { for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (uint64_t)((u128)f((u128)t.v[i], (u128)u.v[i]) & maskw(w)); return mkTab(t.idx, t.lo, t.v, w); }
    return nullptr;
}

// ---------------------------------------------------------------- division
// x = d*q + u with u >= 0 and no wrap (x a non-negative sum): split off the multiples of d
static bool splitDiv(E x, u128 d, E& q, E& u) {
    if (x->k != K_SUM || !x->nsw || x->slo < 0 || x->w > 64) return false;
    unsigned w = x->w; SumB sq(w), su(w); bool any = false;
    for (unsigned i = 0; i < x->n; i++) { i128 k = sxt(x->coef[i], w); if (k % (i128)d == 0) { sq.add(x->kid[i], (u128)(k / (i128)d)); any = true; } else su.add(x->kid[i], (u128)k); }
    i128 c = sxt(x->c, w), cq = c >= 0 ? c / (i128)d : -((-c + (i128)d - 1) / (i128)d);
    sq.c += (u128)cq; su.c += (u128)(c - cq * (i128)d);
    if (!any && cq == 0) return false;
    q = sq.build(); u = su.build();
    auto ns = [](E e) { return e->isConst() || e->k != K_SUM || e->nsw; };
    if (!ns(q) || !ns(u)) return false;
    if (u->slo < 0) { // borrow from q's constant: u + m*d >= 0
        i128 m = (-u->slo + (i128)d - 1) / (i128)d; u = mkAdd(u, mkConst((u128)(m * (i128)d), w)); q = mkSub(q, mkConst((u128)m, w)); if (!ns(u) || u->slo < 0) return false; }
    if (q == x || u == x) return false;
    return true;
}
E mkUDiv(E a, E b) {
    unsigned w = a->w;
    if (b->isConst() && b->c) {
        if (a->isConst()) return mkConst(a->c / b->c, w);
        if (b->c == 1) return a; if (a->uhi < b->c) return mkConst(0, w);
        if (E t = tab2(a, b, w, [](u128 x, u128 y) { return x / y; })) return t;
        E q, u; if (splitDiv(a, b->c, q, u)) return mkAdd(q, mkUDiv(u, b));
        if (a->ulo / b->c == a->uhi / b->c) return mkConst(a->ulo / b->c, w);
        if (a->k == K_SUM && w <= 64 && !(b->c & (b->c - 1)) && a->c % b->c == 0) { // 2^k * x: drop the bits that were shifted out
            unsigned k = __builtin_ctzll((uint64_t)b->c); bool all = true;
            for (unsigned i = 0; i < a->n; i++) all &= a->coef[i] % b->c == 0;
            if (all) { SumB s(w); for (unsigned i = 0; i < a->n; i++) s.add(a->kid[i], a->coef[i] >> k); s.c += a->c >> k; return mkZExt(mkExtract(s.build(), 0, w - k), w); }
        }
        if (w > 1 && w <= 64 && b->c == (u128)1 << (w - 1)) return mkZExt(mkSlt(a, mkConst(0, w)), w); // the sign bit
    }
    return node(K_UDIV, w, {a, b});
}
// a = d * (sum) + const without overflow, of undecided sign: the constant modulo d
static bool constPart(E a, i128 d, i128& m) {
    if (a->k != K_SUM || !a->nsw || d <= 1) return false;
    for (unsigned i = 0; i < a->n; i++) if (sxt(a->coef[i], a->w) % d) return false;
    m = sxt(a->c, a->w) % d; if (m < 0) m += d; return true;
}
E mkURem(E a, E b) {
    unsigned w = a->w;
    if (b->isConst() && b->c) {
        if (a->isConst()) return mkConst(a->c % b->c, w);
        if (b->c == 1) return mkConst(0, w); if (a->uhi < b->c) return a;
        if (E t = tab2(a, b, w, [](u128 x, u128 y) { return x % y; })) return t;
        E q, u; if (splitDiv(a, b->c, q, u)) return mkURem(u, b);
        if (a->ulo / b->c == a->uhi / b->c) return mkSub(a, mkConst(a->ulo / b->c * b->c, w));
        if (a->k == K_UREM && a->kid[1]->isConst() && a->kid[1]->c % b->c == 0) return mkURem(a->kid[0], b);
        i128 m; if (w <= 64 && b->c < ((u128)1 << 62) && constPart(a, (i128)b->c, m)) return mkIte(mkSlt(a, mkConst(0, w)), mkConst(((u128)m + ((u128)1 << w) % b->c) % b->c, w), mkConst((u128)m, w));
    } else if (a->uhi < b->ulo) return a;
    return node(K_UREM, w, {a, b});
}
static inline u128 sdivc(u128 a, u128 b, unsigned w) { i128 x = sxt(a, w), y = sxt(b, w); if (y == -1) return (u128)0 - (u128)x; return (u128)(x / y); }
static inline u128 sremc(u128 a, u128 b, unsigned w) { i128 x = sxt(a, w), y = sxt(b, w); if (y == -1) return 0; return (u128)(x % y); }
static E divSum(E a, i128 d) { // the floor of a / d for the sum of constPart
    SumB s(a->w); for (unsigned i = 0; i < a->n; i++) s.add(a->kid[i], (u128)(sxt(a->coef[i], a->w) / d)); i128 c = sxt(a->c, a->w), m = c % d; if (m < 0) m += d; s.c += (u128)((c - m) / d); return s.build();
}
E mkSDiv(E a, E b) {
    unsigned w = a->w;
    if (a->slo >= 0 && b->slo > 0) return mkUDiv(a, b);
    if (b->isConst() && b->c) {
        if (a->isConst()) return mkConst(sdivc(a->c, b->c, w), w);
        if (b->c == 1) return a; if (b->c == maskw(w)) return mkNeg(a);
        if (E t = tab2(a, b, w, [w](u128 x, u128 y) { return sdivc(x, y, w); })) return t;
        if (a->shi <= 0 && a->slo > smin_(w) && sxt(b->c, w) > 0) return mkNeg(mkUDiv(mkNeg(a), b));
        i128 d = sxt(b->c, w); if (d < 0) d = -d;
        i128 m; if (constPart(a, d, m) && d < ((i128)1 << 62)) { // exact up to the constant part: truncation towards zero depends on the sign
            E q = divSum(a, d); E r = m ? mkIte(mkSlt(a, mkConst(0, w)), mkAdd(q, mkConst(1, w)), q) : q; return sxt(b->c, w) < 0 ? mkNeg(r) : r; }
    }
    return node(K_SDIV, w, {a, b});
}
E mkSRem(E a, E b) {
    unsigned w = a->w;
    if (a->slo >= 0 && b->slo > 0) return mkURem(a, b);
    if (b->isConst() && b->c) {
        if (a->isConst()) return mkConst(sremc(a->c, b->c, w), w);
        if (b->c == 1 || b->c == maskw(w)) return mkConst(0, w);
        if (E t = tab2(a, b, w, [w](u128 x, u128 y) { return sremc(x, y, w); })) return t;
        i128 d = sxt(b->c, w); if (d < 0) d = -d; if (d > 0 && a->slo > -d && a->shi < d) return a;
        if (a->shi <= 0 && a->slo > smin_(w) && d > 0) return mkNeg(mkURem(mkNeg(a), mkConst((u128)d, w)));
        i128 m; if (constPart(a, d, m)) return m ? mkIte(mkSlt(a, mkConst(0, w)), mkConst((u128)(m - d), w), mkConst((u128)m, w)) : mkConst(0, w);
    }
    return node(K_SREM, w, {a, b});
}

// ---------------------------------------------------------------- bitwise
static unsigned tzOf(E e) {
    if (e->isConst()) { if (!e->c) return e->w; unsigned i = 0; while (!((e->c >> i) & 1)) i++; return i; }
    if (e->k == K_SUM) { unsigned m = e->w; auto tz = [&](u128 v) { if (!v) return (unsigned)e->w; unsigned i = 0; while (!((v >> i) & 1)) i++; return i; }; m = std::min(m, tz(e->c)); for (unsigned i = 0; i < e->n; i++) m = std::min(m, tz(e->coef[i])); return m; }
    if (e->k == K_CONCAT && e->kid[1]->isConst() && !e->kid[1]->c) return e->kid[1]->w;
    return 0;
}
static unsigned bitsOf(u128 v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b; }
E mkNot(E a) {
    if (a->isConst()) return mkConst(~a->c, 1);
    if (a->k == K_NOT) return a->kid[0];
    return node(K_NOT, 1, {a});
}
E mkAnd(E a, E b) {
    unsigned w = a->w; if (a == b) return a;
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c & b->c, w);
        if (!b->c) return b; if (b->c == maskw(w)) return a;
        u128 m = b->c; unsigned lo = 0; while (!((m >> lo) & 1)) lo++;
        u128 s = m >> lo;
        if (!lo && !(s & (s + 1))) { if (a->uhi <= m) return a; return mkZExt(mkExtract(a, 0, bitsOf(m)), w); }
        if ((s | (lo ? maskw(w) ^ (maskw(w) >> lo) : 0)) == maskw(w) || m == (maskw(w) & ~maskw(lo))) return mkSub(a, mkAnd(a, mkConst(maskw(lo), w)));
        if (!(s & (s + 1))) { unsigned nb = bitsOf(s); return mkScale(mkZExt(mkExtract(a, lo, nb), w), (u128)1 << lo); }
        if (E t = tab2(a, b, w, [](u128 x, u128 y) { return x & y; }, a->w == 8)) return t;
    }
    if (w == 1) { if ((a->k == K_NOT && a->kid[0] == b) || (b->k == K_NOT && b->kid[0] == a)) return mkConst(0, 1);
        if ((b->k == K_AND && (b->kid[0] == a || b->kid[1] == a))) return b; if ((a->k == K_AND && (a->kid[0] == b || a->kid[1] == b))) return a; }
    if (a->id > b->id) std::swap(a, b);
    return node(K_AND, w, {a, b});
}
E mkOr(E a, E b) {
    unsigned w = a->w; if (a == b) return a;
    if (w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c | b->c, w); if (!b->c) return a; if (b->c == maskw(w)) return b;
        if (E t = tab2(a, b, w, [](u128 x, u128 y) { return x | y; }, a->w == 8)) return t;
    }
    if (bitsOf(b->uhi) <= tzOf(a) || bitsOf(a->uhi) <= tzOf(b)) return mkAdd(a, b);
    if (a->id > b->id) std::swap(a, b);
    return node(K_OR, w, {a, b});
}
E mkXor(E a, E b) {
    unsigned w = a->w; if (a == b) return mkConst(0, w);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->isConst()) return mkConst(a->c ^ b->c, w); if (!b->c) return a;
        if (w == 1) return mkNot(a);
        if (b->c == maskw(w)) return mkSub(mkConst(maskw(w), w), a);
        if (b->c == ((u128)1 << (w - 1))) return mkAdd(a, b);
        if (E t = tab2(a, b, w, [](u128 x, u128 y) { return x ^ y; }, a->w == 8)) return t;
    }
    if (w == 1) { bool neg = false; if (a->k == K_NOT) { a = a->kid[0]; neg = !neg; } if (b->k == K_NOT) { b = b->kid[0]; neg = !neg; } if (a == b) return mkConst(neg, 1);
        if (a->id > b->id) std::swap(a, b); E r = node(K_XOR, 1, {a, b}); return neg ? mkNot(r) : r; }
    if (a->id > b->id) std::swap(a, b);
    return node(K_XOR, w, {a, b});
}
E mkShl(E a, E b) {
    unsigned w = a->w;
    if (b->isConst()) { if (b->c >= w) return mkConst(0, w); return mkScale(a, (u128)1 << (unsigned)b->c); }
    if (E t = tab2(a, b, w, [w](u128 x, u128 y) { return y >= w ? 0 : x << (unsigned)y; }, a->isConst())) return t;
    return node(K_SHL, w, {a, b});
}
E mkLShr(E a, E b) {
    unsigned w = a->w;
    if (b->isConst()) { if (b->c >= w) return mkConst(0, w); if (!b->c) return a; if (w == 128 && b->c == 127) return mkZExt(mkExtract(a, 127, 1), 128);
        return mkUDiv(a, mkConst((u128)1 << (unsigned)b->c, w)); }
    if (E t = tab2(a, b, w, [w](u128 x, u128 y) { return y >= w ? 0 : x >> (unsigned)y; }, a->isConst())) return t;
    return node(K_LSHR, w, {a, b});
}
E mkAShr(E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkConst((u128)(sxt(a->c, w) >> s), w); }
    if (a->slo >= 0) return mkLShr(a, b);
    if (b->isConst()) { if (!b->c) return a; if (b->c >= w) b = mkConst(w - 1, w); if (a->shi < 0 && a->slo >= -((i128)1 << (unsigned)b->c)) return mkConst(maskw(w), w);
        if (a->k == K_SUM) { // (x << s) >> s: the low w - s bits of x, sign-extended
            unsigned sh = (unsigned)b->c; u128 low = ((u128)1 << sh) - 1; bool all = !(a->c & low); for (unsigned i = 0; i < a->n && all; i++) all = !(a->coef[i] & low);
            if (all) { SumB t(w); for (unsigned i = 0; i < a->n; i++) t.add(a->kid[i], (u128)(sxt(a->coef[i], w) >> sh)); t.c += (u128)(sxt(a->c, w) >> sh); E x = t.build();
                if (x->slo >= smin_(w - sh) && x->shi <= smax_(w - sh)) return x; if (w - sh >= 8) return mkSExt(mkExtract(x, 0, w - sh), w); } }
        if (E t = tab2(a, b, w, [w](u128 x, u128 y) { return (u128)(sxt(x, w) >> (y >= w ? w - 1 : (unsigned)y)); })) return t; }
    return node(K_ASHR, w, {a, b});
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && !hi->c) return mkZExt(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->kid[0] == lo->kid[0] && hi->c == lo->c + lo->w) return mkExtract(hi->kid[0], (unsigned)lo->c, w);
    if (lo->isConst() && !lo->c && w <= 128) return mkScale(mkZExt(hi, w), (u128)1 << lo->w);
    if (hi->k == K_EXTRACT && hi->c == lo->w && mkExtract(hi->kid[0], 0, lo->w) == lo) return mkExtract(hi->kid[0], 0, w); // pieces of one term, the low one narrowed
    return node(K_CONCAT, w, {hi, lo});
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->c >> lo, w);
    switch (a->k) {
    case K_EXTRACT: return mkExtract(a->kid[0], (unsigned)a->c + lo, w);
    case K_CONCAT: { unsigned lw = a->kid[1]->w; if (lo + w <= lw) return mkExtract(a->kid[1], lo, w); if (lo >= lw) return mkExtract(a->kid[0], lo - lw, w); break; }
    case K_ZEXT: { E x = a->kid[0]; if (lo + w <= x->w) return mkExtract(x, lo, w); if (lo >= x->w) return mkConst(0, w); return mkZExt(mkExtract(x, lo, x->w - lo), w); }
    case K_SEXT: { E x = a->kid[0]; if (lo + w <= x->w) return mkExtract(x, lo, w); if (lo == 0) return mkSExt(x, w); break; }
    case K_SUM: if (lo == 0 && w >= 8) { SumB s(w); for (unsigned i = 0; i < a->n; i++) s.add(mkExtract(a->kid[i], 0, w), a->coef[i]); s.c += a->c; return s.build(); } break;
    case K_MUL: if (lo == 0 && w >= 8) { E r = mkExtract(a->kid[0], 0, w); for (unsigned i = 1; i < a->n; i++) r = mkMul(r, mkExtract(a->kid[i], 0, w)); return r; } break;
    case K_UDIV: if (lo == 0 && a->kid[1]->isConst() && a->kid[0]->uhi <= maskw(w) && a->kid[1]->c <= maskw(w)) return mkUDiv(mkExtract(a->kid[0], 0, w), mkConst(a->kid[1]->c, w)); break;
    case K_UREM: if (lo == 0 && a->kid[1]->isConst() && a->kid[0]->uhi <= maskw(w) && a->kid[1]->c <= maskw(w)) return mkURem(mkExtract(a->kid[0], 0, w), mkConst(a->kid[1]->c, w)); break;
    case K_ITE: if (a->kid[1]->isConst() || a->kid[2]->isConst() || w <= 8) return mkIte(a->kid[0], mkExtract(a->kid[1], lo, w), mkExtract(a->kid[2], lo, w)); break;
    case K_AND: case K_OR: case K_XOR: if (a->w > 1 && w > 1) { E x = mkExtract(a->kid[0], lo, w), y = mkExtract(a->kid[1], lo, w); return a->k == K_AND ? mkAnd(x, y) : a->k == K_OR ? mkOr(x, y) : mkXor(x, y); } break;
    default: break;
    }
    if (lo && a->w <= 64 && (a->uhi >> lo) == 0) return mkConst(0, w);
    if (E t = tab1(a, w, [lo](u128 x) { return x >> lo; })) return t;
    return node(K_EXTRACT, w, {a}, lo);
}
E mkRawExtract(E a, unsigned lo, unsigned w) { return node(K_EXTRACT, w, {a}, lo); }
E mkZExt(E a, unsigned w) {
    if (a->w == w) return a; if (a->isConst()) return mkConst(a->c, w);
    switch (a->k) {
    case K_ZEXT: return mkZExt(a->kid[0], w);
    case K_EXTRACT: if (a->c == 0 && a->kid[0]->uhi <= maskw(a->w)) { E x = a->kid[0]; return w >= x->w ? mkZExt(x, w) : mkExtract(x, 0, w); } break;
    case K_SUM: if (a->nsw && a->slo >= 0) { SumB s(w); bool ok = true; for (unsigned i = 0; i < a->n && ok; i++) s.add(mkSExt(a->kid[i], w), (u128)sxt(a->coef[i], a->w)); s.c += (u128)sxt(a->c, a->w); return s.build(); } break;
    case K_MUL: { u128 p = 1; bool ok = true; for (unsigned i = 0; i < a->n && ok; i++) if (__builtin_mul_overflow(p, a->kid[i]->uhi, &p) || p > maskw(a->w)) ok = false; if (ok) { E r = mkZExt(a->kid[0], w); for (unsigned i = 1; i < a->n; i++) r = mkMul(r, mkZExt(a->kid[i], w)); return r; } break; }
    case K_UDIV: if (a->kid[1]->isConst()) return mkUDiv(mkZExt(a->kid[0], w), mkConst(a->kid[1]->c, w)); break;
    case K_UREM: if (a->kid[1]->isConst()) return mkURem(mkZExt(a->kid[0], w), mkConst(a->kid[1]->c, w)); break;
    case K_ITE: if (a->kid[1]->isConst() || a->kid[2]->isConst()) return mkIte(a->kid[0], mkZExt(a->kid[1], w), mkZExt(a->kid[2], w)); break;
    case K_TAB: if (w <= 64) { std::vector<uint64_t> v(a->tab, a->tab + a->n); return mkTab(a->kid[0], sxt(a->c, 128), v, w); } break;
    case K_SLT: case K_EQ: case K_NOT: if (w <= 64) { // a predicate over one small-range index becomes a table
        E p = a; bool neg = false; if (p->k == K_NOT) { p = p->kid[0]; neg = true; }
        if ((p->k == K_SLT || p->k == K_EQ)) { E x = p->kid[0], y = p->kid[1]; bool swap = false; if (x->isConst()) { std::swap(x, y); swap = true; }
            i128 lo; unsigned n; if (y->isConst() && !x->isConst() && x->w > 1 && smallRange(x, lo, n, 256)) { i128 yc = sxt(y->c, y->w); std::vector<uint64_t> v; for (unsigned i = 0; i < n; i++) { i128 xv = lo + i; bool r = p->k == K_EQ ? xv == yc : swap ? yc < xv : xv < yc; v.push_back(r != neg); } return mkTab(x, lo, v, w); } } }
        break;
    default: break;
    }
    return node(K_ZEXT, w, {a});
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a; if (a->isConst()) return mkConst((u128)sxt(a->c, a->w), w);
    if (a->w > 1 && a->slo >= 0) return mkZExt(a, w);
    if (a->w == 1) return mkNeg(mkZExt(a, w));
    switch (a->k) {
    case K_SEXT: return mkSExt(a->kid[0], w);
    case K_EXTRACT: if (a->c == 0 && a->kid[0]->slo >= smin_(a->w) && a->kid[0]->shi <= smax_(a->w)) { E x = a->kid[0]; return w >= x->w ? mkSExt(x, w) : mkExtract(x, 0, w); } break;
    case K_SUM: if (a->nsw) { SumB s(w); for (unsigned i = 0; i < a->n; i++) s.add(mkSExt(a->kid[i], w), (u128)sxt(a->coef[i], a->w)); s.c += (u128)sxt(a->c, a->w); return s.build(); } break;
    case K_MUL: if (a->nsw) { E r = mkSExt(a->kid[0], w); for (unsigned i = 1; i < a->n; i++) r = mkMul(r, mkSExt(a->kid[i], w)); return r; } break;
    case K_SDIV: if (a->kid[1]->isConst() && a->kid[1]->c != maskw(a->w)) return mkSDiv(mkSExt(a->kid[0], w), mkSExt(a->kid[1], w)); break;
    case K_SREM: if (a->kid[1]->isConst() && a->kid[1]->c != maskw(a->w)) return mkSRem(mkSExt(a->kid[0], w), mkSExt(a->kid[1], w)); break;
    case K_ITE: if (a->kid[1]->isConst() || a->kid[2]->isConst()) return mkIte(a->kid[0], mkSExt(a->kid[1], w), mkSExt(a->kid[2], w)); break;
    case K_TAB: if (w <= 64) { std::vector<uint64_t> v; for (unsigned i = 0; i < a->n; i++) v.push_back((uint64_t)((u128)sxt(a->tab[i], a->w) & maskw(w))); return mkTab(a->kid[0], sxt(a->c, 128), v, w); } break;
    default: break;
    }
    return node(K_SEXT, w, {a});
}

// ---------------------------------------------------------------- comparisons
static u128 modinv(u128 a, unsigned w) { u128 x = 1; for (int i = 0; i < 8; i++) x *= 2 - a * x; return x & maskw(w); }
E mkEq(E a, E b) {
    if (a == b) return mkConst(1, 1);
    unsigned w = a->w;
    if (a->isConst()) std::swap(a, b);
    if (a->isConst() && b->isConst()) return mkConst(a->c == b->c, 1);
    if (w == 1) { if (b->isConst()) return b->c ? a : mkNot(a); return mkNot(mkXor(a, b)); }
    if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return mkConst(0, 1);
    if (E t = tab2(a, b, 1, [](u128 x, u128 y) { return (u128)(x == y); })) return t;
    if (a->k == K_CONCAT && b->isConst()) { unsigned lw = a->kid[1]->w; return mkAnd(mkEq(a->kid[0], mkConst(b->c >> lw, a->kid[0]->w)), mkEq(a->kid[1], mkConst(b->c, lw))); }
    if (a->k == K_ZEXT && b->isConst()) { if (b->c > maskw(a->kid[0]->w)) return mkConst(0, 1); return mkEq(a->kid[0], mkConst(b->c, a->kid[0]->w)); }
    if (a->k == K_SEXT && b->isConst()) { return mkEq(a->kid[0], mkConst(b->c, a->kid[0]->w)); }
    if ((a->k == K_ZEXT || a->k == K_SEXT) && b->k == a->k && a->kid[0]->w == b->kid[0]->w) return mkEq(a->kid[0], b->kid[0]);
    if (a->k == K_ITE && b->isConst()) { if (a->kid[1]->isConst()) return a->kid[1]->c == b->c ? mkOr(a->kid[0], mkEq(a->kid[2], b)) : mkAnd(mkNot(a->kid[0]), mkEq(a->kid[2], b)); if (a->kid[2]->isConst()) return a->kid[2]->c == b->c ? mkOr(mkNot(a->kid[0]), mkEq(a->kid[1], b)) : mkAnd(a->kid[0], mkEq(a->kid[1], b)); }
    if (a->k == K_SUM || b->k == K_SUM) {
        E d = mkSub(a, b); if (d->isConst()) return mkConst(d->c == 0, 1);
        if (d->ulo > 0) return mkConst(0, 1);
        if (d->k == K_SUM) {
            u128 c = ((u128)0 - d->c) & maskw(w); SumB s(w); s.add(d, 1); s.c = 0;
            if (d->n == 1 && (d->coef[0] & 1)) { u128 inv = modinv(d->coef[0], w); E x = d->kid[0]; c = (c * inv) & maskw(w); if (c < x->ulo || c > x->uhi) return mkConst(0, 1); return mkEq(x, mkConst(c, w)); }
            if (d->nsw && d->w <= 64) { // gcd test and division by the gcd of the coefficients
                i128 g = 0; for (unsigned i = 0; i < d->n; i++) { i128 x = sxt(d->coef[i], w); if (x < 0) x = -x; while (x) { i128 t = g % x; g = x; x = t; } }
                i128 cs = -sxt(d->c, w); if (g > 1) { if (cs % g) return mkConst(0, 1); SumB q(w); for (unsigned i = 0; i < d->n; i++) q.add(d->kid[i], (u128)(sxt(d->coef[i], w) / g)); E x = q.build(); return mkEq(x, mkConst((u128)(cs / g), w)); }
            }
            bool neg = sxt(d->coef[0], w) < 0;
            if (neg) { SumB m(w); for (unsigned i = 0; i < d->n; i++) m.add(d->kid[i], (u128)0 - d->coef[i]); E L = m.build(); u128 cc = ((u128)0 - c) & maskw(w); if (E t = tab2(L, mkConst(cc, w), 1, [](u128 x, u128 y) { return (u128)(x == y); })) return t; return node(K_EQ, 1, {L, mkConst(cc, w)}); }
            E L = s.build(); if (E t = tab2(L, mkConst(c, w), 1, [](u128 x, u128 y) { return (u128)(x == y); })) return t;
            return node(K_EQ, 1, {L, mkConst(c, w)});
        }
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return node(K_EQ, 1, {a, b});
}
E mkUlt(E a, E b) {
    if (a == b) return mkConst(0, 1);
    if (a->uhi < b->ulo) return mkConst(1, 1); if (a->ulo >= b->uhi) return mkConst(0, 1);
    if (a->w > 1 && a->slo >= 0 && b->slo >= 0) return mkSlt(a, b);
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (b->isConst() && b->c == 1) return mkEq(a, mkConst(0, a->w));
    if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
    if (a->isConst() && b->isConst()) return mkConst(a->c < b->c, 1);
    if (E t = tab2(a, b, 1, [](u128 x, u128 y) { return (u128)(x < y); })) return t;
    return node(K_ULT, 1, {a, b});
}
E mkSlt(E a, E b) {
    if (a == b) return mkConst(0, 1);
    if (a->shi < b->slo) return mkConst(1, 1); if (a->slo >= b->shi) return mkConst(0, 1);
    unsigned w = a->w; if (w == 1) return mkAnd(a, mkNot(b));
    if (E t = tab2(a, b, 1, [w](u128 x, u128 y) { return (u128)(sxt(x, w) < sxt(y, w)); })) return t;
    if (a->k == K_ZEXT && a->kid[0]->w == 1 && b->isConst()) return mkIte(a->kid[0], mkSlt(mkConst(1, w), b), mkSlt(mkConst(0, w), b));
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->kid[0]->w == b->kid[0]->w) { E x = a->kid[0], y = b->kid[0]; if (x->slo >= 0 && y->slo >= 0) return mkSlt(x, y); }
    if ((a->k == K_SEXT) && b->k == K_SEXT && a->kid[0]->w == b->kid[0]->w) return mkSlt(a->kid[0], b->kid[0]);
    // difference form when nothing wraps
    if (w <= 64) {
        E d = mkSub(a, b); i128 lo, hi;
        if (!__builtin_sub_overflow(a->slo, b->shi, &lo) && !__builtin_sub_overflow(a->shi, b->slo, &hi) && lo >= smin_(w) && hi <= smax_(w)) {
            if (d->isConst()) return mkConst(sxt(d->c, w) < 0, 1);
            if (d->shi < 0) return mkConst(1, 1); if (d->slo >= 0) return mkConst(0, 1);
            if (d->k == K_SUM && d->nsw) {
                // S + c < 0  <=>  S < -c ; divide by gcd; normalise the sign of the leading coefficient
                i128 g = 0; for (unsigned i = 0; i < d->n; i++) { i128 x = sxt(d->coef[i], w); if (x < 0) x = -x; while (x) { i128 t = g % x; g = x; x = t; } }
                i128 c = -sxt(d->c, w);           // S < c
                SumB q(w); for (unsigned i = 0; i < d->n; i++) q.add(d->kid[i], (u128)(sxt(d->coef[i], w) / g)); E S = q.build();
                // S*g < c <=> S < ceil(c/g)
                i128 t = c >= 0 ? (c + g - 1) / g : -((-c) / g);
                bool okS = S->isConst() || S->k != K_SUM || S->nsw;
                if (okS && !S->isConst() && t > smin_(w) && t <= smax_(w)) {
                    if (S->shi < t) return mkConst(1, 1); if (S->slo >= t) return mkConst(0, 1);
                    if (E tt = tab2(S, mkConst((u128)t, w), 1, [w](u128 x, u128 y) { return (u128)(sxt(x, w) < sxt(y, w)); })) return tt;
                    if (S->k == K_SUM && sxt(S->coef[0], w) < 0) { E N = mkNeg(S); if (N->slo == -S->shi && N->shi == -S->slo) { // -N < t <=> N > -t <=> !(N < -t+1)
                            return mkNot(node(K_SLT, 1, {N, mkConst((u128)(-t + 1), w)})); } }
                    if (t == S->slo + 1) return mkEq(S, mkConst((u128)S->slo, w));
                    if (t == S->shi) return mkNot(mkEq(S, mkConst((u128)S->shi, w)));
                    return node(K_SLT, 1, {S, mkConst((u128)t, w)});
                }
            }
        }
    }
    return node(K_SLT, 1, {a, b});
}
E mkIte(E c, E a, E b) {
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_NOT) return mkIte(c->kid[0], b, a);
    unsigned w = a->w;
    if (w == 1) { if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b); if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a); if (c == a) return mkOr(c, b); if (c == b) return mkAnd(c, a); return node(K_ITE, 1, {c, a, b}); }
    if (a->k == K_ITE && a->kid[0] == c) a = a->kid[1]; if (b->k == K_ITE && b->kid[0] == c) b = b->kid[2];
    if (a == b) return a;
    E d = mkSub(a, b);
    if (d->isConst()) return mkAdd(b, mkScale(mkZExt(c, w), d->c));
    return node(K_ITE, w, {c, a, b});
}

// ---------------------------------------------------------------- floating point
static inline double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static inline u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static inline float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static const i128 I52 = (i128)1 << 52;
static E floorDivE(E x, i128 d) { // floor(x/d), d>0, 64 bit
    if (x->slo >= 0) return mkUDiv(x, mkConst((u128)d, 64));
    // floor(x/d) = (x + m*d) /u d - m with m*d >= -slo
    i128 m = (-x->slo + d - 1) / d; E y = mkAdd(x, mkConst((u128)(m * d), 64)); if (y->slo < 0) return nullptr; return mkSub(mkUDiv(y, mkConst((u128)d, 64)), mkConst((u128)m, 64));
}
// 64-bit integer expression numerically equal to the double e (sign of zero ignored), or null
static E intView(E e) {
    if (e->w != 64) return nullptr;
    if (e->ivDone) return e->iv;
    E r = nullptr; auto ok = [](E x) { return x && x->slo >= -I52 && x->shi <= I52; };
    switch (e->k) {
    case K_CONST: { double d = asD(e->c); if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) <= (double)I52) r = mkConst((u128)(i128)d, 64); break; }
    case K_SI2F: case K_UI2F: { E x = e->kid[0]; if (x->w > 64) break; if (e->k == K_SI2F ? (x->slo >= -I52 && x->shi <= I52) : x->uhi <= (u128)I52) r = e->k == K_SI2F ? mkSExt(x, 64) : mkZExt(x, 64); break; }
    case K_FADD: case K_FSUB: case K_FMUL: { if (e->k == K_FMUL) { // (x / 2^k) * 2^k
            E q = e->kid[0], m = e->kid[1]; if (q->isConst()) std::swap(q, m); int ex;
            if (m->isConst() && q->k == K_FDIV && q->kid[1] == m && asD(m->c) >= 1 && asD(m->c) < 1e15 && std::frexp(asD(m->c), &ex) == 0.5) { r = intView(q->kid[0]); if (r) break; } }
        E x = intView(e->kid[0]), y = intView(e->kid[1]); if (!x || !y) break;
        i128 lo, hi; if (e->k == K_FADD) { lo = x->slo + y->slo; hi = x->shi + y->shi; } else if (e->k == K_FSUB) { lo = x->slo - y->shi; hi = x->shi - y->slo; }
        else { i128 p[4] = {x->slo * y->slo, x->slo * y->shi, x->shi * y->slo, x->shi * y->shi}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
        if (lo < -I52 || hi > I52) break; r = e->k == K_FADD ? mkAdd(x, y) : e->k == K_FSUB ? mkSub(x, y) : mkMul(x, y); break; }
    case K_FDIV: { E d = intView(e->kid[1]), x = d && d->isConst() && d->c ? intView(e->kid[0]) : nullptr; // exact quotients
        if (x) { E m = mkSRem(x, d); if (m->isConst() && !m->c) r = mkSDiv(x, d); } break; }
    case K_FNEG: { E x = intView(e->kid[0]); if (x) r = mkNeg(x); break; }
    case K_FABS: { E x = intView(e->kid[0]); if (x) r = mkIte(mkSlt(x, mkConst(0, 64)), mkNeg(x), x); break; }
    case K_FRND: { E k = e->kid[0]; E x = intView(k); if (x) { r = x; break; }
        if (k->k == K_FDIV) { E n = intView(k->kid[0]), d = intView(k->kid[1]); if (n && d && d->isConst() && sxt(d->c, 64) > 0) { i128 dv = sxt(d->c, 64);
            if (e->c == 0) r = floorDivE(n, dv); else if (e->c == 1) { E q = floorDivE(mkNeg(n), dv); if (q) r = mkNeg(q); } else if (e->c == 2) r = mkSDiv(n, mkConst((u128)dv, 64)); } }
        break; }
    case K_ITE: { E x = intView(e->kid[1]), y = intView(e->kid[2]); if (x && y) r = mkIte(e->kid[0], x, y); break; }
    case K_TAB: { std::vector<uint64_t> v; bool good = true; for (unsigned i = 0; i < e->n && good; i++) { double d = asD(e->tab[i]); if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) <= (double)I52) v.push_back((uint64_t)(int64_t)d); else good = false; } if (good) r = mkTab(e->kid[0], sxt(e->c, 128), v, 64); break; }
    default: break;
    }
    if (!ok(r)) r = nullptr;
    e->ivDone = 1; e->iv = r; return r;
}
static u128 fop2(Kind k, u128 a, u128 b, unsigned w) {
    if (w == 64) { double x = asD(a), y = asD(b); switch (k) { case K_FADD: return fromD(x + y); case K_FSUB: return fromD(x - y); case K_FMUL: return fromD(x * y); default: return fromD(x / y); } }
    float x = asF(a), y = asF(b); switch (k) { case K_FADD: return fromF(x + y); case K_FSUB: return fromF(x - y); case K_FMUL: return fromF(x * y); default: return fromF(x / y); }
}
static u128 fop1(Kind k, u128 a, unsigned w, unsigned c) {
    if (w == 32) { if (k == K_FNEG) return a ^ 0x80000000u; if (k == K_FABS) return a & 0x7fffffffu; return fromF((float)asD(fop1(k, fromD((double)asF(a)), 64, c))); }
    double x = asD(a); switch (k) { case K_FNEG: return a ^ ((u128)1 << 63); case K_FABS: return a & (((u128)1 << 63) - 1); case K_FSQRT: return fromD(std::sqrt(x));
    default: return fromD(c == 0 ? std::floor(x) : c == 1 ? std::ceil(x) : c == 2 ? std::trunc(x) : c == 3 ? std::nearbyint(x) : std::round(x)); }
}
static u128 fconv(Kind k, u128 a, unsigned wi, unsigned wo) {
    switch (k) {
    case K_SI2F: { i128 s = sxt(a, wi); return wo == 64 ? fromD((double)s) : fromF((float)s); }
    case K_UI2F: return wo == 64 ? fromD((double)a) : fromF((float)a);
    case K_F2SI: { double d = wi == 64 ? asD(a) : asF(a); if (std::isnan(d) || std::fabs(d) > 1.7e38) return (u128)smin_(wo) & maskw(wo); i128 v = (i128)d; if (v < smin_(wo) || v > smax_(wo)) return (u128)smin_(wo) & maskw(wo); return (u128)v & maskw(wo); }
    case K_F2UI: { double d = wi == 64 ? asD(a) : asF(a); if (std::isnan(d) || d <= -1 || d > 1.7e38) return 0; u128 v = (u128)d; return v & maskw(wo); }
    case K_FEXT: return fromD((double)asF(a));
    default: return fromF((float)asD(a));
    }
}
static bool fcmp(Kind k, u128 a, u128 b, unsigned w) { double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b); return k == K_FEQ ? x == y : k == K_FLT ? x < y : x <= y; }
E mkF2(Kind k, E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(fop2(k, a->c, b->c, w), w);
    if (E t = tab2(a, b, w, [k, w](u128 x, u128 y) { return fop2(k, x, y, w); })) return t;
    if ((k == K_FADD || k == K_FMUL) && a->id > b->id) std::swap(a, b);
    return node(k, w, {a, b});
}
E mkF1(Kind k, E a, unsigned c) {
    unsigned w = a->w;
    if (a->isConst()) return mkConst(fop1(k, a->c, w, c), w);
    if (E t = tab1(a, w, [k, w, c](u128 x) { return fop1(k, x, w, c); })) return t;
    if (k == K_FNEG && a->k == K_FNEG) return a->kid[0];
    if (k == K_FABS && (a->k == K_FNEG || a->k == K_FABS)) return mkF1(K_FABS, a->kid[0]);
    return node(k, w, {a}, c);
}
E mkFConv(Kind k, E a, unsigned w) {
    unsigned wi = a->w;
    if (a->isConst()) return mkConst(fconv(k, a->c, wi, w), w);
    if (E t = tab1(a, w, [=](u128 x) { return fconv(k, x, wi, w); }, k == K_SI2F || k == K_UI2F)) return t;
    if (k == K_F2SI || k == K_F2UI) { E x = intView(a); if (x) { bool fit = k == K_F2SI ? (x->slo >= smin_(w) && x->shi <= smax_(w)) : (x->slo >= 0 && (w >= 64 || (u128)x->shi <= maskw(w))); if (fit) return w < 64 ? mkExtract(x, 0, w) : mkSExt(x, w); }
        if (a->k == K_FDIV && k == K_F2SI) { E n = intView(a->kid[0]), d = intView(a->kid[1]); if (n && d && d->isConst() && sxt(d->c, 64) > 0) { E q = mkSDiv(n, d); if (q->slo >= smin_(w) && q->shi <= smax_(w)) return w < 64 ? mkExtract(q, 0, w) : q; } } }
    return node(k, w, {a});
}
// e is a whole number n (up to 2^50) over the positive constant d, rounded: such quotients are ordered like the n
static E quotView(E e, u128& d) {
    if (e->w != 64) return nullptr;
    if (e->k == K_FNEG) { E n = quotView(e->kid[0], d); return n ? mkNeg(n) : nullptr; }
    if (e->k == K_ITE) { u128 d2; E x = quotView(e->kid[1], d), y = x ? quotView(e->kid[2], d2) : nullptr; return y && d == d2 ? mkIte(e->kid[0], x, y) : nullptr; }
    if (e->k != K_FDIV || !e->kid[1]->isConst()) return nullptr;
    double c = asD(e->kid[1]->c); if (!(c > 1e-200 && c < 1e200)) return nullptr;
    E n = intView(e->kid[0]); if (!n || n->slo < -(1LL << 50) || n->shi > (1LL << 50)) return nullptr;
    d = e->kid[1]->c; return n;
}
E mkFCmp(Kind k, E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(fcmp(k, a->c, b->c, w), 1);
    if (E t = tab2(a, b, 1, [k, w](u128 x, u128 y) { return (u128)fcmp(k, x, y, w); })) return t;
    auto quot = [w](E e) { return w == 64 && e->k == K_FDIV && e->kid[1]->isConst() && asD(e->kid[1]->c) > 0 && asD(e->kid[1]->c) < 1e300 && intView(e->kid[0]); }; // has the sign of its dividend
    auto zero = [](E e) { return e->isConst() && asD(e->c) == 0; };
    if (w == 64 && zero(b) && quot(a)) return mkFCmp(k, a->kid[0], b);
    if (w == 64 && zero(a) && quot(b)) return mkFCmp(k, a, b->kid[0]);
    { u128 d, d2; E p = quotView(a, d), q = p ? quotView(b, d2) : nullptr; if (q && d == d2) return k == K_FEQ ? mkEq(p, q) : k == K_FLT ? mkSlt(p, q) : mkSle(p, q); }
    E x = intView(a), y = intView(b);
    if (x && y) return k == K_FEQ ? mkEq(x, y) : k == K_FLT ? mkSlt(x, y) : mkSle(x, y);
    if (x && b->isConst()) { // integer against a non-integral or huge constant
        double d = asD(b->c); if (std::isnan(d)) return mkConst(0, 1); if (k == K_FEQ && std::isfinite(d) && d != std::floor(d)) return mkConst(0, 1);
        if (k != K_FEQ) { if (d > (double)I52) return mkConst(1, 1); if (d < -(double)I52) return mkConst(0, 1); if (d != std::floor(d)) return mkSle(x, mkConst((u128)(i128)std::floor(d), 64)); } else if (std::fabs(d) > (double)I52) return mkConst(0, 1); }
    if (y && a->isConst()) {
        double d = asD(a->c); if (std::isnan(d)) return mkConst(0, 1); if (k == K_FEQ && std::isfinite(d) && d != std::floor(d)) return mkConst(0, 1);
        if (k != K_FEQ) { if (d > (double)I52) return mkConst(0, 1); if (d < -(double)I52) return mkConst(1, 1); if (d != std::floor(d)) return mkSle(mkConst((u128)(i128)std::ceil(d), 64), y); } else if (std::fabs(d) > (double)I52) return mkConst(0, 1); }
    if (k == K_FEQ && a->id > b->id) std::swap(a, b);
    return node(k, 1, {a, b});
}
E mkFIsNan(E a) {
    if (a->isConst()) { double d = a->w == 64 ? asD(a->c) : asF(a->c); return mkConst(std::isnan(d), 1); }
    unsigned w = a->w; if (E t = tab1(a, 1, [w](u128 x) { return (u128)std::isnan(w == 64 ? asD(x) : asF(x)); })) return t;
    if (intView(a)) return mkConst(0, 1);
    return node(K_FISNAN, 1, {a});
}
E mkFPure(double (*f)(double), E a, bool& ok) {
    ok = true; if (a->isConst()) return mkConst(fromD(f(asD(a->c))), 64);
    if (E t = tab1(a, 64, [f](u128 x) { return fromD(f(asD(x))); })) return t;
    ok = false; return nullptr;
}
E mkFPure2(double (*f)(double, double), E a, E b, bool& ok) {
    ok = true; if (a->isConst() && b->isConst()) return mkConst(fromD(f(asD(a->c), asD(b->c))), 64);
    if (E t = tab2(a, b, 64, [f](u128 x, u128 y) { return fromD(f(asD(x), asD(y))); })) return t;
    ok = false; return nullptr;
}

// ---------------------------------------------------------------- evaluation, variables, printing
static uint32_t g_stamp = 0;
static u128 ev(E e, const std::vector<uint64_t>& m);
static u128 ev1(E e, const std::vector<uint64_t>& m) {
    unsigned w = e->w; auto K = [&](unsigned i) { return ev(e->kid[i], m); };
    switch (e->k) {
    case K_CONST: return e->c;
    case K_VAR: { size_t i = (size_t)e->c; return i < m.size() ? (u128)m[i] : g_vars[i].lo; }
    case K_SUM: { u128 r = e->c; for (unsigned i = 0; i < e->n; i++) r += e->coef[i] * K(i); return r; }
    case K_MUL: { u128 r = K(0); for (unsigned i = 1; i < e->n; i++) r *= K(i); return r; }
    case K_UDIV: { u128 b = K(1); return b ? K(0) / b : maskw(w); }
    case K_UREM: { u128 b = K(1); return b ? K(0) % b : K(0); }
    case K_SDIV: { u128 b = K(1); if (!b) return sxt(K(0), w) >= 0 ? maskw(w) : 1; return sdivc(K(0), b, w); }
    case K_SREM: { u128 b = K(1); if (!b) return K(0); return sremc(K(0), b, w); }
    case K_AND: return K(0) & K(1); case K_OR: return K(0) | K(1); case K_XOR: return K(0) ^ K(1);
    case K_SHL: { u128 s = K(1); return s >= w ? 0 : K(0) << (unsigned)s; }
    case K_LSHR: { u128 s = K(1); return s >= w ? 0 : K(0) >> (unsigned)s; }
    case K_ASHR: { u128 s = K(1); return (u128)(sxt(K(0), w) >> (s >= w ? w - 1 : (unsigned)s)); }
    case K_CONCAT: return (K(0) << e->kid[1]->w) | K(1);
    case K_EXTRACT: return K(0) >> (unsigned)e->c;
    case K_ZEXT: return K(0);
    case K_SEXT: return (u128)sxt(K(0), e->kid[0]->w);
    case K_EQ: return K(0) == K(1); case K_ULT: return K(0) < K(1);
    case K_SLT: return sxt(K(0), e->kid[0]->w) < sxt(K(1), e->kid[0]->w);
    case K_NOT: return !K(0);
    case K_ITE: return K(0) ? K(1) : K(2);
    case K_TAB: { i128 i = sxt(K(0), e->kid[0]->w) - sxt(e->c, 128); if (i < 0 || i >= (i128)e->n) return e->tab[0]; return e->tab[(size_t)i]; }
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: return fop2(e->k, K(0), K(1), w);
    case K_FNEG: case K_FABS: case K_FSQRT: case K_FRND: return fop1(e->k, K(0), w, (unsigned)e->c);
    case K_SI2F: case K_UI2F: case K_F2SI: case K_F2UI: case K_FEXT: case K_FTRUNC: return fconv(e->k, K(0), e->kid[0]->w, w);
    case K_FEQ: case K_FLT: case K_FLE: return fcmp(e->k, K(0), K(1), e->kid[0]->w);
    case K_FISNAN: { double d = e->kid[0]->w == 64 ? asD(K(0)) : asF(K(0)); return std::isnan(d); }
    }
    return 0;
}
static u128 ev(E e, const std::vector<uint64_t>& m) {
    if (e->k == K_CONST) return e->c;
    if (e->evalStamp == g_stamp) return e->evalVal;
    u128 v = ev1(e, m) & maskw(e->w); e->evalStamp = g_stamp; e->evalVal = v; return v;
}
u128 evalExpr(E e, const std::vector<uint64_t>& m) { g_stamp++; return ev(e, m); }
const std::vector<uint32_t>& exprVars(E e) {
    if (e->vars) return *e->vars;
    auto* v = new std::vector<uint32_t>();
    if (e->k == K_VAR) v->push_back((uint32_t)e->c);
    else { unsigned nk = e->k == K_TAB ? 1 : e->k == K_CONST ? 0 : e->n; for (unsigned i = 0; i < nk; i++) { auto& k = exprVars(e->kid[i]); std::vector<uint32_t> t; t.reserve(v->size() + k.size()); std::set_union(v->begin(), v->end(), k.begin(), k.end(), std::back_inserter(t)); v->swap(t); } }
    e->vars = v; return *v;
}
static std::string u2s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } return std::string(s.rbegin(), s.rend()); }
static std::string i2s(i128 v) { return v < 0 ? "-" + u2s((u128)0 - (u128)v) : u2s((u128)v); }
std::string exprStr(E e, int depth) {
    static const char* nm[] = {"const", "var", "sum", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "slt", "not", "ite", "tab", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "frnd", "si2f", "ui2f", "f2si", "f2ui", "fext", "ftrunc", "feq", "flt", "fle", "fisnan"};
    if (e->k == K_CONST) return i2s(sxt(e->c, e->w)); if (e->k == K_VAR) return g_vars[(size_t)e->c].name;
    if (depth <= 0) return "#" + std::to_string(e->id);
    std::string s = "("; s += nm[e->k]; s += std::to_string(e->w);
    if (e->k == K_SUM) { s += " " + i2s(sxt(e->c, e->w)); for (unsigned i = 0; i < e->n; i++) s += " " + i2s(sxt(e->coef[i], e->w)) + "*" + exprStr(e->kid[i], depth - 1); }
    else if (e->k == K_TAB) { s += "[" + i2s(sxt(e->c, 128)) + ":"; for (unsigned i = 0; i < e->n && i < 8; i++) s += " " + std::to_string(e->tab[i]); s += "] " + exprStr(e->kid[0], depth - 1); }
    else { if (e->c) s += "." + u2s(e->c); for (unsigned i = 0; i < e->n; i++) s += " " + exprStr(e->kid[i], depth - 1); }
    return s + ")";
}

// ---------------------------------------------------------------- substitution
E substE(E e, std::unordered_map<E, E>& m) {
    auto it = m.find(e); if (it != m.end()) return it->second;
    if (e->k == K_CONST || e->k == K_VAR) return e;
    unsigned nk = e->k == K_TAB ? 1 : e->n; std::vector<E> k(nk); bool ch = false;
    for (unsigned i = 0; i < nk; i++) { k[i] = substE(e->kid[i], m); if (k[i] != e->kid[i]) ch = true; }
    E r = e;
    if (ch) switch (e->k) {
    case K_SUM: { SumB s(e->w); for (unsigned i = 0; i < nk; i++) s.add(k[i], e->coef[i]); s.c += e->c; r = s.build(); break; }
    case K_MUL: r = k[0]; for (unsigned i = 1; i < nk; i++) r = mkMul(r, k[i]); break;
    case K_UDIV: r = mkUDiv(k[0], k[1]); break; case K_SDIV: r = mkSDiv(k[0], k[1]); break; case K_UREM: r = mkURem(k[0], k[1]); break; case K_SREM: r = mkSRem(k[0], k[1]); break;
    case K_AND: r = mkAnd(k[0], k[1]); break; case K_OR: r = mkOr(k[0], k[1]); break; case K_XOR: r = mkXor(k[0], k[1]); break;
    case K_SHL: r = mkShl(k[0], k[1]); break; case K_LSHR: r = mkLShr(k[0], k[1]); break; case K_ASHR: r = mkAShr(k[0], k[1]); break;
    case K_CONCAT: r = mkConcat(k[0], k[1]); break; case K_EXTRACT: r = mkExtract(k[0], (unsigned)e->c, e->w); break; case K_ZEXT: r = mkZExt(k[0], e->w); break; case K_SEXT: r = mkSExt(k[0], e->w); break;
    case K_EQ: r = mkEq(k[0], k[1]); break; case K_ULT: r = mkUlt(k[0], k[1]); break; case K_SLT: r = mkSlt(k[0], k[1]); break; case K_NOT: r = mkNot(k[0]); break; case K_ITE: r = mkIte(k[0], k[1], k[2]); break;
    case K_TAB: { i128 lo = sxt(e->c, 128); if (k[0]->slo >= lo && k[0]->shi < lo + (i128)e->n) r = mkTab(k[0], lo, std::vector<uint64_t>(e->tab, e->tab + e->n), e->w); break; }
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: r = mkF2(e->k, k[0], k[1]); break;
    case K_FNEG: case K_FABS: case K_FSQRT: case K_FRND: r = mkF1(e->k, k[0], (unsigned)e->c); break;
    case K_SI2F: case K_UI2F: case K_F2SI: case K_F2UI: case K_FEXT: case K_FTRUNC: r = mkFConv(e->k, k[0], e->w); break;
    case K_FEQ: case K_FLT: case K_FLE: r = mkFCmp(e->k, k[0], k[1]); break; case K_FISNAN: r = mkFIsNan(k[0]); break;
    default: break;
    }
    m[e] = r; return r;
}
void factSubst(E fact, std::unordered_map<E, E>& m) {
    if (fact->k == K_NOT) { m.emplace(fact->kid[0], mkConst(0, 1)); return; }
    m.emplace(fact, mkConst(1, 1));
    if (fact->k != K_EQ || !fact->kid[1]->isConst()) return;
    E x = fact->kid[0]; if (x->k == K_SUM) return; u128 c = fact->kid[1]->c;
    auto put = [&](E y) {
        if (y->k == K_SUM || y->isConst()) return; E cv = mkConst(y->w == x->w ? c : x->slo >= 0 ? c : (u128)sxt(c, x->w), y->w); m.emplace(y, cv);
        if (y->k == K_UDIV && y->kid[1]->isConst()) { E r = mkURem(y->kid[0], y->kid[1]); if (!r->isConst() && r->k != K_SUM) m.emplace(r, mkSub(y->kid[0], mkScale(cv, y->kid[1]->c))); }
    };
    put(x); if (x->k == K_UDIV || x->k == K_UREM || x->k == K_VAR) for (unsigned w : {8u, 16u, 32u, 64u, 128u}) { if (w > x->w) put(mkZExt(x, w)); else if (w < x->w && x->uhi <= maskw(w)) put(mkExtract(x, 0, w)); }
}
