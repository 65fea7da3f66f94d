// Hash-consed bit-vector / floating-point expressions with a polynomial normal form and ranges.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_CONST, K_VAR,
    K_SUM,            // c + sum coef_i * kid_i   (mod 2^w), kids are atoms, sorted by id
    K_MUL,            // product of >=2 atoms, sorted by id
    K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
    K_EQ, K_ULT, K_SLT, K_NOT,
    K_ITE,
    K_TAB,            // table lookup: values[kid0 - c]
    // floating point (w = 32 or 64; result is the bit pattern)
    K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FSQRT, K_FRND /*c: 0 floor 1 ceil 2 trunc 3 rne 4 rna*/,
    K_SI2F, K_UI2F, K_F2SI, K_F2UI, K_FEXT, K_FTRUNC,
    K_FEQ, K_FLT, K_FLE, K_FISNAN,
};

struct Expr {
    Kind k;
    bool nsw;           // K_SUM: no signed wrap when evaluated over the integers (range in [slo,shi])
    uint16_t w;
    uint32_t id;
    uint32_t n;         // number of kids (K_TAB: number of table entries; kid 0 is the index)
    u128 c;
    const Expr** kid;
    u128* coef;         // K_SUM
    uint64_t* tab;      // K_TAB
    u128 ulo, uhi;
    i128 slo, shi;
    uint64_t hash;
    mutable void* z3 = nullptr;
    mutable std::vector<uint32_t>* vars = nullptr;
    mutable uint32_t evalStamp = 0;
    mutable uint8_t ivDone = 0;
    mutable const Expr* iv = nullptr;
    mutable u128 evalVal = 0;
    bool isConst() const { return k == K_CONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned w; u128 lo, hi; E e; bool undef; };
extern std::vector<VarInfo> g_vars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    v &= maskw(w);
    return (v >> (w - 1)) & 1 ? (i128)(v | ~maskw(w)) : (i128)v;
}
E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, u128 lo, u128 hi, bool undef = false);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkScale(E a, u128 k);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkRawExtract(E a, unsigned lo, unsigned w);   // not simplified
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkIte(E c, E a, E b);
// table lookup over an index whose (signed) range is [lo, lo+vals.size()-1]
E mkTab(E idx, i128 lo, const std::vector<uint64_t>& vals, unsigned w);
E mkF2(Kind k, E a, E b);
E mkF1(Kind k, E a, unsigned c = 0);
E mkFConv(Kind k, E a, unsigned w);   // SI2F UI2F F2SI F2UI FEXT FTRUNC
E mkFCmp(Kind k, E a, E b);
E mkFIsNan(E a);
E mkFPure(double (*f)(double), E a, bool& ok);
E mkFPure2(double (*f)(double, double), E a, E b, bool& ok);

u128 evalExpr(E e, const std::vector<uint64_t>& model);  // model indexed by var id
const std::vector<uint32_t>& exprVars(E e);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
E substE(E e, std::unordered_map<E, E>& m);              // rebuilds e with the mapped subterms replaced (m doubles as the memo)
void factSubst(E fact, std::unordered_map<E, E>& m);     // replacements implied by a fact
