// Multiplication is exact.
#include "h.h"
extern "C" void harness()
{
    int na = sym_param("na", 2), nb = sym_param("nb", 2);
    switch (MODE)
    {
    case 0: {
        int sa = sgn(), sb = sgn();
        Int a = lit("a", na, sa), b = lit("b", nb, sb);
        long x = val(a), y = val(b);
        Int c = a * b;
        CHECK(val(c) == x * y, "a * b is the product");
        CHECK(val(a) == x && val(b) == y, "operands unchanged by a * b");
        a *= b;
        CHECK(a == c, "a *= b agrees with a * b");
        sym_cover("product");
        break;
    }
    case 1: {
        Int a = lit("a", na, sgn());
        long x = val(a);
        a *= a;
        CHECK(val(a) == x * x, "a *= a is the square");
        break;
    }
    case 2: {  // long factors with fixed digits but for the first and the last of a, which are any, case by case
        Num x, y;
        x.n = na; y.n = nb; y.neg = true;
        for (int i = 0; i < na; i++) x.d[i] = (i * 7 + 3) % 11 % 10;
        for (int i = 0; i < nb; i++) y.d[i] = 9 - i * 5 % 13 % 10 / 2;
        x.d[0] = sym_fork(sym_range("a", 0, 9)); x.d[na - 1] = sym_fork(sym_range("a", 1, 9));
        Int a = intOf(x), b = intOf(y);
        same(a * b, mul(x, y), "a * b is the product");
        same(b * a, mul(x, y), "b * a is the product");
        a *= a;
        same(a, mul(x, x), "a *= a is the square");
        sym_cover("long product");
        break;
    }
    }
}
