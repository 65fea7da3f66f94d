// Fractions are canonical: lowest terms, positive denominator, value kept.
#include "f.h"
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // any numerator over a fixed denominator of either sign (101.. are the ends of the range)
        int p = sym_param("p", 1);
        if (p > 100) p = edges[p - 101];
        long w = std::abs((long)p) <= 100 ? std::abs((long)p) : 1;
        long n = residue("n", w);
        if (w == 1 && p != 1 && p != -1) { n = sym_param("e", 0) ? edges[sym_param("e", 0) - 1] : 0; n += sym_range("near", n < 0 ? 0 : -3, n > 0 ? 0 : 3); if (n < INT_MIN) n = INT_MIN; n = sym_fork(n); }
        Fraction f;
        bool bad = throws([&] { f = Fraction((int)n, p); });
        if (p == 0) { CHECK(bad, "a zero denominator is refused"); sym_cover("zero denominator"); break; }
        is([&] { return Fraction((int)n, p); }, n, p, "the fraction in lowest terms");
        if (bad) break;
        int N = f.numerator(), P = f.denominator();
        CHECK(P > 0, "the denominator is positive");
        Fraction m(std::move(f));
        CHECK(m.numerator() == N && m.denominator() == P, "moves keep the value");
        CHECK(f.denominator() > 0, "a moved-from fraction is a fraction");
        Fraction c(m), d;
        d = c;
        CHECK(d.numerator() == N && d.denominator() == P && c.numerator() == N && c.denominator() == P, "copies keep the value");
        f = std::move(m);
        CHECK(f.numerator() == N && f.denominator() == P, "moves keep the value");
        sym_cover("canonical");
        break;
    }
    case 1: {  // any denominator below a fixed numerator
        int m = sym_param("m", 6);
        long d = residue("d", m);
        Fraction f;
        bool bad = throws([&] { f = Fraction(m, (int)d); });
        if (sym_fork(d == 0)) { CHECK(bad, "a zero denominator is refused"); sym_cover("zero denominator"); break; }
        long c = gcdOf(sym_fork((d % m + m) % m), m);
        if (sym_fork(d < 0)) c = -c;
        CHECK(bad == (d / c > INT_MAX), "a fraction is refused only when it is out of range");
        if (bad) { sym_cover("out of range"); break; }
        CHECK(f.numerator() == (int)(m / c) && f.denominator() == (int)(d / c), "the fraction in lowest terms");
        sym_cover("canonical");
        break;
    }
    case 2: {  // whole numbers, and the value as a double
        int a = anyInt("a");
        Fraction f(a), z;
        CHECK(f.numerator() == a && f.denominator() == 1, "a whole number");
        CHECK(z.numerator() == 0 && z.denominator() == 1, "zero");
        CHECK(throws([&] { Fraction q(a, 0); }), "a zero denominator is refused");
        CHECK((double)f == (double)a, "the value of a whole number as a double");
        Fraction h(2 * sym_range("h", -1000000, 1000000) + 1, 4);
        CHECK((double)h * 4 == (double)h.numerator() && h.denominator() == 4, "the value as a double");
        sym_cover("whole");
        break;
    }
    case 3: {  // the value as a double, to the last bit
        static const int ns[] = {1, -1, 2, 3, -7, 1000003, 16777217, -33554433, INT_MAX - 1, INT_MAX, INT_MIN + 1, INT_MIN}, ds[] = {1, 2, 3, 10, 16777217, 67108865, 1000000007, INT_MAX - 1, INT_MAX};
        int n = ns[sym_fork(sym_range("n", 0, 11))], d = ds[sym_fork(sym_range("d", 0, 8))];
        CHECK((double)Fraction(n, d) == (double)n / (double)d, "the value as a double");
        int w = sym_range("w", INT_MIN, INT_MAX);
        CHECK((double)Fraction(w) == (double)w, "the value of a whole number as a double");
        sym_cover("double");
        break;
    }
    }
}
