// Int is a value: copies are independent, operators leave operands alone, moved-from integers are zero.
#include "h.h"
extern "C" void harness()
{
    int na = sym_param("na", 2);
    switch (MODE)
    {
    case 0: {  // a sequence of operations on a copy does not touch the original
        Int a = lit("a", na, sgn());
        long x = val(a);
        Int b = a, c;
        c = a;
        for (int i = 0; i < 2; i++)
            switch (sym_fork(sym_range("op", 0, 6)))
            {
            case 0: ++b; break;
            case 1: --b; break;
            case 2: b += a; break;
            case 3: b -= a; break;
            case 4: b = -b; break;
            case 5: b *= Int(3); break;
            case 6: b = 7; break;
            }
        CHECK(val(a) == x && val(c) == x && a == c, "the original is unchanged by operations on a copy");
        sym_cover("copy");
        break;
    }
    case 1: {
        Int a = lit("a", na, sgn());
        long x = val(a);
        Int m = std::move(a);
        CHECK(val(m) == x, "the moved-to integer has the value");
        CHECK(a.is_zero() && a == Int(0) && str(a) == "0", "the moved-from integer is zero");
        a += Int(5);
        CHECK(val(a) == 5, "and usable");
        Int n(99);
        n = std::move(m);
        CHECK(val(n) == x && m.is_zero() && m == Int(), "move assignment");
        break;
    }
    case 2: {  // the same object on both sides
        Int a = lit("a", na, sgn());
        long x = val(a);
        Int b = a; b += b; CHECK(val(b) == x + x, "a += a");
        b = a; b -= b; CHECK(val(b) == 0, "a -= a");
        b = a; b *= b; CHECK(val(b) == x * x, "a *= a");
        b = a; b = b; CHECK(val(b) == x, "a = a");
        if (x) { b = a; b /= b; CHECK(val(b) == 1, "a /= a"); b = a; b %= b; CHECK(val(b) == 0, "a %= a"); }
        CHECK(a == a && !(a < a) && !(a > a) && a <= a && a >= a, "a compared with itself");
        CHECK(Int::gcd(a, a) == a.abs(), "gcd(a, a)");
        break;
    }
    case 3: {  // three operations in any order against machine arithmetic
        long x = sym_range("x", -99, 99), y = sym_range("y", -9, 9);
        Int a((int)x), b((int)y);
        for (int i = 0; i < sym_param("k", 3); i++)
            switch (sym_fork(sym_range("op", 0, 5)))
            {
            case 0: a += b; x += y; break;
            case 1: a -= b; x -= y; break;
            case 2: ++a; ++x; break;
            case 3: --b; --y; break;
            case 4: a = -a; x = -x; break;
            case 5: std::swap(a, b); std::swap(x, y); break;
            }
        CHECK(val(a) == x && val(b) == y, "a history of operations has the value of the same history on machine integers");
        sym_cover("history");
        break;
    }
    }
}
