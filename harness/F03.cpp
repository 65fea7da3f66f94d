// Fraction order and equality are those of the values; equal fractions hash equally.
#include "f.h"
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // any numerators over fixed denominators
        int p = sym_param("p", 1), q = sym_param("q", 1);
        if (p > 100) p = edges[p - 101];
        if (q > 100) q = edges[q - 101];
        long n = residue("n", p < 100 ? p : 1), m = residue("m", q < 100 ? q : 1);
        if (p > 100) n = (sym_fork(sym_range("s", 0, 1)) ? INT_MAX : INT_MIN + 8) - sym_fork(sym_range("near", 0, 8));
        if (q > 100) m = (sym_fork(sym_range("s2", 0, 1)) ? INT_MAX : INT_MIN + 8) - sym_fork(sym_range("near2", 0, 8));
        const Fraction a((int)n, p), b((int)m, q);
        long d = n * q - m * p;
        CHECK((a == b) == (d == 0) && (a != b) == (d != 0), "equality is equality of the values");
        CHECK((a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0), "the order is that of the values");
        CHECK(a == a && a <= a && a >= a && !(a < a) && !(a != a), "a fraction and itself");
        if (sym_fork(d == 0)) { CHECK(std::hash<Fraction>{}(a) == std::hash<Fraction>{}(b), "equal fractions hash equally"); sym_cover("equal"); }
        else sym_cover("different");
        break;
    }
    case 1: {  // fractions and numbers
        int n = anyInt("n");
        const Fraction a(n);
        Fraction h(1, 2);
        CHECK((a == h) == false && (a < h) == (n <= 0) && (a > h) == (n > 0) && (h < a) == (n > 0), "whole numbers and a half");
        sym_cover("half");
        break;
    }
    }
}
