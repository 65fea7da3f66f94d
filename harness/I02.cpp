// Addition, subtraction, negation, abs, increment and decrement are exact.
#include "h.h"
extern "C" void harness()
{
    int na = sym_param("na", 2), nb = sym_param("nb", 2);
    switch (MODE)
    {
    case 0: {  // all digits, all signs
        bool sa = sgn() < 0, sb = sgn() < 0;
        Num x = numOf("a", na, sa), y = numOf("b", nb, sb);
        Int a = intOf(x), b = intOf(y);
        Int c = a + b;
        same(c, add(x, y), "a + b");
        same(a, x, "a is unchanged by a + b");
        same(b, y, "b is unchanged by a + b");
        Int e = a;
        e += b;
        CHECK(e == c, "a += b agrees with a + b");
        sym_cover("sum");
        break;
    }
    case 1: {
        bool sa = sgn() < 0, sb = sgn() < 0;
        Num x = numOf("a", na, sa), y = numOf("b", nb, sb);
        Int a = intOf(x), b = intOf(y);
        Int d = a - b;
        same(d, add(x, neg(y)), "a - b");
        same(a, x, "a is unchanged by a - b");
        same(b, y, "b is unchanged by a - b");
        Int f = a;
        f -= b;
        CHECK(f == d, "a -= b agrees with a - b");
        sym_cover("difference");
        break;
    }
    case 2: {  // ++, --, negation, abs
        Num x = numOf("a", na, sgn() < 0), one;
        one.n = 1; one.d[0] = 1;
        Int a = intOf(x), u = a, d = a;
        CHECK(&++u == &u && &--d == &d, "++ and -- return the object");
        same(u, add(x, one), "++a");
        same(d, add(x, neg(one)), "--a");
        --u; ++d;
        CHECK(u == a && d == a, "-- undoes ++");
        same(-a, neg(x), "-a");
        same(+a, x, "+a");
        x.neg = false;
        same(a.abs(), x, "abs");
        sym_cover("step");
        break;
    }
    case 3: {  // long carry and borrow chains: d 9..9 d or d 0..0 d, plus any small number
        int z = sym_param("zeros", 10), kind = sym_fork(sym_range("kind", 0, 1));
        Num x, y;
        x.neg = sgn() < 0; x.n = z + 2;
        for (int i = 1; i <= z; i++) x.d[i] = kind ? 9 : 0;
        x.d[z + 1] = sym_range("hi", 1, 9); x.d[0] = sym_range("lo", 0, 9);
        y.neg = sgn() < 0; y.n = 2; y.d[1] = sym_range("k", 0, 9); y.d[0] = sym_range("k", 0, 9);
        y.norm();
        Int a = intOf(x), b = intOf(y);
        same(a + b, add(x, y), "carries and borrows propagate over the whole number");
        same(b - a, add(y, neg(x)), "carries and borrows propagate over the whole number (b - a)");
        sym_cover("chain");
        break;
    }
    case 4: {  // aliased operands
        Num x = numOf("a", na, sgn() < 0);
        Int b = intOf(x), c = b, e = b;
        b += b;
        same(b, add(x, x), "a += a");
        c -= c;
        CHECK(c.is_zero() && str(c) == "0", "a -= a");
        e = e;
        same(e, x, "a = a");
        break;
    }
    case 5: {  // laws on three operands
        Int a = lit("a", na, sgn()), b = lit("b", nb, sgn()), c = lit("c", sym_param("nc", 1), sgn());
        CHECK((a + b) + c == a + (b + c), "addition is associative");
        CHECK(a + b == b + a, "addition is commutative");
        CHECK(a - b == -(b - a) && (a + b) - b == a, "subtraction undoes addition");
        break;
    }
    }
}
