// Comparison is the numeric order, equality and hash agree with it, and the examination functions tell the truth.
#include "h.h"
static void order(const Int& a, const Int& b, int c)
{
    CHECK((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "the order is the numeric order");
    CHECK((a == b) == (c == 0) && (a != b) == (c != 0), "equality is numeric equality");
    CHECK(((a <=> b) < 0) == (c < 0) && ((a <=> b) > 0) == (c > 0) && ((a <=> b) == 0) == (c == 0), "<=> agrees");
    if (c == 0) { CHECK(std::hash<Int>()(a) == std::hash<Int>()(b), "equal integers hash equally"); sym_cover("equal"); }
    else sym_cover("different");
}
extern "C" void harness()
{
    int na = sym_param("na", 2), nb = sym_param("nb", 2);
    switch (MODE)
    {
    case 0: {
        Num x = numOf("a", na, sgn() < 0), y = numOf("b", nb, sgn() < 0);
        Int a = intOf(x), b = intOf(y);
        order(a, b, cmpNum(x, y));
        break;
    }
    case 1: {
        Num x = numOf("a", na, sgn() < 0);
        Int a = intOf(x);
        bool odd = x.n && x.d[0] % 2;
        CHECK(a.digits() == na, "digits() is the number of decimal digits (0 for zero)");
        CHECK(a.is_even() == !odd && a.is_odd() == odd, "parity");
        CHECK(a.is_zero() == (x.n == 0) && a.is_positive() == (x.n && !x.neg) && a.is_negative() == x.neg, "sign");
        Int b = -(-a);
        order(a, b, 0);
        Int c = a + Int(1); c -= Int(1);
        order(c, a, 0);
        Int d = a; ++d;
        order(d, a, 1);
        order(a, d, -1);
        CHECK(Int(1) * a == a && std::hash<Int>()(a * 1) == std::hash<Int>()(a), "equality and hash after multiplication");
        break;
    }
    case 2: {  // long numbers that differ in one place at most
        Num x, y;
        x.n = na; x.neg = sgn() < 0;
        for (int i = 0; i < na; i++) x.d[i] = 1 + (i * 7) % 9;
        y = x;
        int p = sym_fork(sym_range("p", 0, na - 1));
        x.d[p] = sym_range("u", p < na - 1 ? 0 : 1, 9);
        y.d[p] = sym_range("v", p < na - 1 ? 0 : 1, 9);
        Int a = intOf(x), b = intOf(y);
        order(a, b, cmpNum(x, y));
        CHECK(a.digits() == na, "digits() of a long integer");
        break;
    }
    }
}
