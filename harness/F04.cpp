// Fraction remainder, greatest common divisor and least common multiple.
#include "f.h"
static bool whole(long n, long d) { return sym_fork(((n % d) + std::abs(d)) % d) == 0; }
static long signedResidue(const char* nm, long w, long max = INT_MAX)  // any int, split by its sign and its remainder, the least ones apart
{
    bool minus = sym_fork(sym_range("minus", 0, 1));
    long r = sym_fork(sym_range("r", 0, w - 1)), top = (max - r + (minus && max == INT_MAX)) / w;
    long k = top > 0 && sym_fork(sym_range("far", 0, 1)) ? sym_range(nm, 1, top) : 0;
    return minus ? -(k * w + r) : k * w + r;
}
extern "C" void harness()
{
    int p = sym_param("p", 1), q = sym_param("q", 1), w = sym_param("w", 1);
    long n = signedResidue("n", w, sym_param("l", INT_MAX)), m = sym_param("m", 0);
    if (m > 100) m = edges[m - 101];
    const Fraction a((int)n, p), b((int)m, q);
    switch (MODE)
    {
    case 0: {  // a % b = a - b * trunc(a / b)
        long A = n * q, B = m * p, D = (long)p * q;
        if (m == 0) { CHECK(throws([&] { a % b; }) && throws([&] { Fraction x(a); x %= b; }), "the remainder by zero is refused"); sym_cover("by zero"); break; }
        long r = sym_fork(((A % B) + std::abs(B)) % B);
        if (r && sym_fork(A < 0)) r -= std::abs(B);  // the sign of the dividend
        is([&] { return a % b; }, r, D, "the remainder has the sign of the dividend");
        is([&] { Fraction x(a); x %= b; return x; }, r, D, "the remainder in place");
        sym_cover("remainder");
        break;
    }
    case 1: {  // gcd: divides both, and is a whole combination of both
        Fraction g;
        bool bad = throws([&] { g = sym_fork(sym_range("swap", 0, 1)) ? Fraction::gcd(b, a) : Fraction::gcd(a, b); });
        if (bad) { CHECK((long)p / gcdOf(p, q) * q > INT_MAX || sym_fork(n == INT_MIN) || m == INT_MIN, "the greatest common divisor is refused only when it is out of range"); sym_cover("out of range"); break; }
        CHECK(a.denominator() > 0 && b.denominator() > 0, "the operands are unchanged");
        // in units of 1/(p q): gcd(n q, m p)
        long u = n * q, v = m * p, G = v == 0 ? 0 : gcdOf(sym_fork(((u % v) + std::abs(v)) % v), v);
        if (v == 0) { CHECK(g.numerator() == (sym_fork(n < 0) ? -a.numerator() : a.numerator()) && g.denominator() == a.denominator(), "gcd with zero is the absolute value"); sym_cover("with zero"); break; }
        long c = gcdOf(G, (long)p * q);
        CHECK(g.numerator() == G / c && g.denominator() == (long)p * q / c, "the greatest common divisor");
        if (p > 100) CHECK(G / c <= INT_MAX && (long)p * q / c <= INT_MAX, "a greatest common divisor that is no pair of ints is refused");
        sym_cover("gcd");
        break;
    }
    case 2: {  // lcm = |a b| / gcd
        Fraction l;
        bool bad = throws([&] { l = Fraction::lcm(a, b); });
        long u = n * q, v = m * p;
        if (u == 0 || v == 0) { CHECK(!bad && l.numerator() == 0 && l.denominator() == 1, "lcm with zero is zero"); sym_cover("with zero"); break; }
        long rest = sym_fork(((u % v) + std::abs(v)) % v), D = (long)p * q;
        u = sym_fork(u < 0) ? -u : u; v = std::abs(v);
        long L = u / gcdOf(rest, v) * v, R = sym_fork(L % D), c = R ? gcdOf(R, D) : D;
        CHECK(bad == (L / c > INT_MAX || D / c > INT_MAX), "the least common multiple is refused only when it is out of range");
        if (bad) { sym_cover("out of range"); return; }
        CHECK(l.numerator() == (int)(L / c) && l.denominator() == D / c, "the least common multiple");
        sym_cover("lcm");
        break;
    }
    }
}
