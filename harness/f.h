// Fraction harness helpers.
#pragma once
#include "h.h"
static long gcdOf(long a, long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long t = a % b; a = b; b = t; } return a; }
static const int edges[] = {INT_MIN, INT_MIN + 1, -65536, 65536, INT_MAX - 1, INT_MAX};
static long residue(const char* nm, long w)  // any int, split by its remainder modulo w
{
    if (w < 2) return anyInt(nm);
    long r = sym_fork(sym_range("r", 0, w - 1)), k = sym_range(nm, -((r - (long)INT_MIN) / w), (INT_MAX - r) / w);
    return k * w + r;
}
template <typename F>
static void is(F f, long n, long d, const char* msg)  // the result of f is n / d in lowest terms, or it is refused when that is out of range
{
    Fraction r;
    bool bad = throws([&] { r = f(); });
    if (d == 0) { CHECK(bad, "division by zero is refused"); sym_cover("by zero"); return; }
    long c = sym_fork(((n % d) + std::abs(d)) % d);
    c = c ? gcdOf(c, d) : std::abs(d);
    if (d < 0) c = -c;
    n /= c; d /= c;
    CHECK(bad == (n < INT_MIN || n > INT_MAX || d > INT_MAX), "a result is refused only when it is out of range");
    if (bad) { sym_cover("out of range"); return; }
    CHECK(r.numerator() == (int)n, msg);
    CHECK(r.denominator() == (int)d, msg);
    sym_cover("result");
}
