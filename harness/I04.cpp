// Division truncates, a == (a / b) * b + a % b, |a % b| < |b|, and a zero divisor is refused.
#include "h.h"
static void laws(const Int& a, const Int& b)
{
    long x = val(a), y = val(b);
    Int q = a / b, r = a % b;
    long vq = val(q), vr = val(r), ax = x < 0 ? -x : x, ay = y < 0 ? -y : y, ar = vr < 0 ? -vr : vr, aq = vq < 0 ? -vq : vq;
    CHECK(ax == aq * ay + ar && ar < ay, "a == (a / b) * b + a % b with |a % b| < |b|");
    CHECK(vq == 0 || (vq < 0) == ((x < 0) != (y < 0)), "the sign of the quotient");
    CHECK(vr == 0 || (vr < 0) == (x < 0), "a % b has the sign of the dividend");
    CHECK(val(a) == x && val(b) == y, "operands unchanged");
    Int c = a, d = a;
    c /= b; d %= b;
    CHECK(c == q && d == r, "/= and %= agree with / and %");
    sym_cover("quotient");
}
extern "C" void harness()
{
    int na = sym_param("na", 2), nb = sym_param("nb", 1);
    switch (MODE)
    {
    case 0: {  // any operands
        int s = sym_param("signs", 4);  // 4: every combination
        Int a = lit("a", na, s == 4 ? sgn() : s & 1 ? -1 : 1), b = lit("b", nb, s == 4 ? sgn() : s & 2 ? -1 : 1);
        laws(a, b);
        break;
    }
    case 1: {  // zero divisor
        Int a = lit("a", na, sgn()), z;
        long x = val(a);
        CHECK(throws([&] { a / z; }) && throws([&] { a % z; }), "a / 0 and a % 0 throw runtime_error");
        CHECK(throws([&] { a /= z; }) && throws([&] { a %= z; }), "a /= 0 and a %= 0 throw runtime_error");
        CHECK(throws([&] { z / z; }), "0 / 0 throws runtime_error");
        CHECK(val(a) == x, "a is unchanged by a refused division");
        break;
    }
    case 2: {  // aliased
        Int a = lit("a", na, sgn());
        Int b = a, c = a;
        b /= b; c %= c;
        CHECK(val(b) == 1, "a /= a");
        CHECK(val(c) == 0 && c.is_zero(), "a %= a");
        break;
    }
    case 3: {  // every divisor of nb digits, rebuilt dividends: a = b * q + r for fixed quotients and extreme remainders
        static const char* Q[] = {"1", "9", "10", "37", "99", "100", "909", "1000", "90000000", "123456789"};
        Int q(Q[sym_param("q", 0)]), b = lit("b", nb, 1);
        int rk = sym_fork(sym_range("rkind", 0, 2)), s = sym_param("signs", 0);
        Int r = rk == 0 ? Int(0) : rk == 1 ? Int(1) : b - 1;
        if (rk == 1) sym_assume(b > 1);
        Int a = q * b + r;
        Int A = s & 1 ? -a : a, D = s & 2 ? -b : b;
        CHECK((A / D) == (s == 1 || s == 2 ? -q : q), "quotient of long operands");
        CHECK((A % D) == (s & 1 ? -r : r), "remainder of long operands");
        sym_cover("long quotient");
        break;
    }
    case 4: {  // fixed long divisors, every remainder
        static const char* B[] = {"999999999999", "1000000000001", "123456789012345678901", "10000000000", "9999999989", "20000000000000000000001"};
        static const char* Q[] = {"1", "10", "99", "1000000000", "909090909090909090909"};
        int k = sym_param("b", 0), s = sym_param("signs", 0);
        Int b(B[k]), q(Q[sym_param("q", 0)]), r = lit("r", na, 1);
        sym_assume(r < b);
        Int a = q * b + r;
        Int A = s & 1 ? -a : a, D = s & 2 ? -b : b;
        CHECK((A / D) == (s == 1 || s == 2 ? -q : q), "quotient of long operands");
        CHECK((A % D) == (s & 1 ? -r : r), "remainder of long operands");
        sym_cover("long remainder");
        break;
    }
    }
}
