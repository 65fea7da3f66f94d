// Fraction arithmetic is exact; a result that is not a pair of ints is refused.
#include "f.h"
// the first operand: every numerator that leaves a given remainder by w; the second: fixed, or every numerator as well
extern "C" void harness()
{
    int p = sym_param("p", 1), q = sym_param("q", 1), op = sym_param("op", 0), w = sym_param("w", 1);
    long n = residue("n", w), m = sym_param("m", 0);
    if (sym_param("free", 0)) m = residue("m", w);
    else if (m > 100) m = edges[m - 101];
    const Fraction a((int)n, p), b((int)m, q);
    const long c = gcdOf(sym_fork((n % p + p) % p), p), d = sym_param("free", 0) ? gcdOf(sym_fork((m % q + q) % q), q) : gcdOf(m, q);
    const long N = n / c, P = p / c, M = m / d, Q = q / d;  // in lowest terms
    CHECK(a.numerator() == N && a.denominator() == P && b.numerator() == M && b.denominator() == Q, "the operands in lowest terms");
    switch (op)
    {
    case 0: is([&] { return a + b; }, N * Q + P * M, P * Q, "sum"); is([&] { Fraction x(a); x += b; return x; }, N * Q + P * M, P * Q, "sum in place"); break;
    case 1: is([&] { return a - b; }, N * Q - P * M, P * Q, "difference"); is([&] { Fraction x(a); x -= b; return x; }, N * Q - P * M, P * Q, "difference in place"); break;
    case 2: is([&] { return a * b; }, N * M, P * Q, "product"); is([&] { Fraction x(b); x *= a; return x; }, N * M, P * Q, "product in place"); break;
    case 3: is([&] { return a / b; }, N * Q, P * M, "quotient"); is([&] { Fraction x(a); x /= b; return x; }, N * Q, P * M, "quotient in place"); break;
    case 4:
        is([&] { return -a; }, -N, P, "opposite");
        is([&] { return a.abs(); }, sym_fork(N < 0) ? -N : N, P, "absolute value");
        is([&] { Fraction x(a); ++x; return x; }, N + P, P, "increment");
        is([&] { Fraction x(a); --x; return x; }, N - P, P, "decrement");
        is([&] { return +a; }, N, P, "unary plus");
        is([&] { Fraction x(a); x -= x; return x; }, 0, 1, "a fraction less itself");
        is([&] { Fraction x(a); x += x; return x; }, 2 * N, P, "a fraction and itself");
        break;
    }
    CHECK(a.numerator() == N && a.denominator() == P && b.numerator() == M && b.denominator() == Q, "the operands are unchanged");
}
