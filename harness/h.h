// Helpers shared by the harnesses.  Everything goes through the library's public interface.
#pragma once
#include "sym.h"
#include "pyincpp.hpp"
#include <stdexcept>
using namespace pyincpp;
typedef __int128 i128;
typedef unsigned char u8;
#define CHECK(c, m) sym_check(!!(c), m)
#define MODE (int)sym_param("mode", 0)

// the printed form
template <typename T>
static std::string str(const T& x)
{
    std::ostringstream os;
    os << x;
    return os.str();
}
static inline std::string show(const Str& s)  // the characters of a Str
{
    std::string r;
    for (char c : s) r += c;
    return r;
}
// long texts and sequences: with the parameter free, only so many of the n elements (the last one, or spread evenly with both ends among them) may be anything
static inline bool fixedAt(int i, int n)
{
    int f = sym_param("free", 0);
    return f && n > 6 && i != n - 1 && (f == 1 || i % ((n + f - 1) / f) != 0);
}
static inline std::string text(const char* nm, int n, int lo = -128, int hi = 127)  // any n bytes
{
    std::string s(n, 0);
    for (int i = 0; i < n; i++) s[i] = fixedAt(i, n) ? "aab ab,"[i % 7] : sym_range(nm, lo, hi);
    return s;
}
// a text that is right but for one byte, which may be anything, in the place of one of its characters or in front of one of them
static inline std::string nearly(const std::string& t)
{
    int k = sym_fork(sym_range("at", 0, 2 * t.size()));
    return t.substr(0, k / 2) + (char)sym_range("byte", -128, 127) + t.substr(k / 2 + (k & 1));
}
static inline int anyInt(const char* nm) { return sym_range(nm, INT_MIN, INT_MAX); }
static inline bool matches(const std::string& s, int at, const std::string& p)  // one term, no branches
{
    bool r = true;
    for (size_t j = 0; j < p.size(); j++) r &= s[at + j] == p[j];
    return r;
}
static inline void sameText(const std::string& got, const std::string& want, const char* msg)
{
    CHECK(got.size() == want.size(), msg);
    for (size_t i = 0; i < want.size(); i++) CHECK(got[i] == want[i], msg);
}

// Int <-> decimal text
static inline Int lit(const char* nm, int n, int sg)  // any n-digit integer (leading digit nonzero) of the given sign, n = 0 is zero
{
    if (n == 0) return Int();
    char b[64];
    int p = 0;
    if (sg < 0) b[p++] = '-';
    for (int i = 0; i < n; i++) b[p++] = '0' + sym_range(nm, i == 0 ? 1 : 0, 9);
    b[p] = 0;
    return Int(b);
}
static inline bool canonical(const std::string& s)
{
    size_t i = s.size() && s[0] == '-';
    if (i == s.size()) return false;
    if (s[i] == '0') return i == 0 && s.size() == 1;
    for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false;
    return true;
}
static inline long number(const std::string& s)  // value of canonical text of at most 18 digits
{
    bool neg = s.size() && s[0] == '-';
    CHECK(s.size() - neg <= 18, "the result is not longer than the exact value can be");
    long v = 0;
    for (size_t k = neg; k < s.size(); k++) v = v * 10 + (s[k] - '0');
    return neg ? -v : v;
}
static inline long val(const Int& a)  // the value as printed; the printed form must be canonical
{
    std::string s = str(a);
    CHECK(canonical(s), "the result prints as a canonical decimal integer");
    return number(s);
}
static inline void magnitude(const Int& a, i128& v)  // |a| as printed, up to 38 digits; through memory, so that it stays one 128-bit term
{
    std::string s = str(a);
    CHECK(canonical(s), "the result prints as a canonical decimal integer");
    v = 0;
    for (size_t k = s[0] == '-'; k < s.size(); k++) v = v * 10 + (s[k] - '0');
}
// the digits of every n-digit number <= bound (n > 0, most significant first), split by where it leaves the bound
static inline unsigned long upTo(int n, const char* bound, char* out)
{
    if (n < (int)std::strlen(bound)) { unsigned long v = 0; for (int i = 0; i < n; i++) { int d = sym_range("d", i == 0 ? 1 : 0, 9); out[i] = '0' + d; v = v * 10 + d; } return v; }
    int p = sym_fork(sym_range("leave", 0, n));
    unsigned long v = 0;
    for (int i = 0; i < n; i++)
    {
        int b = bound[i] - '0', d = i < p ? b : i > p ? sym_range("d", 0, 9) : (sym_assume(b > (i == 0)), sym_range("d", i == 0 ? 1 : 0, b - 1));
        out[i] = '0' + d; v = v * 10 + d;
    }
    return v;
}
// reference numbers: sign and decimal digits, least significant first, no leading zeros
struct Num
{
    bool neg = false;
    int n = 0, d[128];
    Num& norm() { while (n && d[n - 1] == 0) n--; if (!n) neg = false; return *this; }
};
static inline Num numOf(const char* nm, int n, bool neg)
{
    Num x;
    x.neg = neg && n; x.n = n;
    for (int i = n - 1; i >= 0; i--) x.d[i] = fixedAt(i, n) ? (i * 7 + *nm) % 11 % 10 + (i == n - 1) : sym_range(nm, i == n - 1 ? 1 : 0, 9);
    return x;
}
static inline Int intOf(const Num& x)  // through the literal constructor
{
    char b[160];
    int p = 0;
    if (x.neg) b[p++] = '-';
    for (int i = x.n - 1; i >= 0; i--) b[p++] = '0' + x.d[i];
    if (!x.n) b[p++] = '0';
    b[p] = 0;
    return Int(b);
}
static inline int cmpAbs(const Num& x, const Num& y)
{
    if (x.n != y.n) return x.n < y.n ? -1 : 1;
    for (int i = x.n - 1; i >= 0; i--) if (x.d[i] != y.d[i]) return x.d[i] < y.d[i] ? -1 : 1;
    return 0;
}
static inline int cmpNum(const Num& x, const Num& y)
{
    if (x.neg != y.neg) return x.neg ? -1 : 1;
    return x.neg ? -cmpAbs(x, y) : cmpAbs(x, y);
}
static inline Num addAbs(const Num& x, const Num& y)
{
    Num r;
    int c = 0;
    r.n = std::max(x.n, y.n) + 1;
    for (int i = 0; i < r.n; i++) { int t = (i < x.n ? x.d[i] : 0) + (i < y.n ? y.d[i] : 0) + c; c = (unsigned)t / 10; r.d[i] = (unsigned)t % 10; }
    return r.norm();
}
static inline Num subAbs(const Num& x, const Num& y)  // |x| >= |y|
{
    Num r;
    int c = 0;
    r.n = x.n;
    for (int i = 0; i < r.n; i++) { int t = 10 + x.d[i] - (i < y.n ? y.d[i] : 0) - c; c = 1 - (unsigned)t / 10; r.d[i] = (unsigned)t % 10; }
    return r.norm();
}
static inline Num mul(const Num& x, const Num& y)
{
    Num r;
    long t = 0;
    r.n = x.n + y.n;
    for (int k = 0; k < r.n; k++)
    {
        for (int i = std::max(0, k - y.n + 1); i < x.n && i <= k; i++) t += x.d[i] * y.d[k - i];
        r.d[k] = (unsigned long)t % 10; t = (unsigned long)t / 10;
    }
    r.neg = x.neg != y.neg;
    return r.norm();
}
static inline Num neg(Num x) { x.neg = x.n && !x.neg; return x; }
static inline Num add(const Num& x, const Num& y)
{
    if (x.neg == y.neg) { Num r = addAbs(x, y); r.neg = x.neg && r.n; return r; }
    if (cmpAbs(x, y) >= 0) { Num r = subAbs(x, y); r.neg = x.neg && r.n; return r; }
    Num r = subAbs(y, x); r.neg = y.neg && r.n; return r;
}
static inline void same(const Int& a, const Num& x, const char* msg)  // the printed form is that of x
{
    std::string s = str(a);
    if (!x.n) { CHECK(s == "0", msg); return; }
    CHECK((int)s.size() == x.n + x.neg, msg);
    if (x.neg) CHECK(s[0] == '-', msg);
    for (int i = 0; i < x.n; i++) CHECK(s[s.size() - 1 - i] == '0' + x.d[i], msg);
}
static inline int sgn() { return sym_fork(sym_range("neg", 0, 1)) ? -1 : 1; }
template <typename F>
static bool throws(F f)  // true when f throws std::runtime_error; any other exception ends the run as a failure
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}
