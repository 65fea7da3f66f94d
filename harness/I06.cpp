// gcd, lcm, factorial and primality follow their definitions.
#include "h.h"
static long g(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static bool prime(long n) { if (n < 2) return false; for (long i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
extern "C" void harness()
{
    int na = sym_param("na", 1), nb = sym_param("nb", 1);
    switch (MODE)
    {
    case 0: {  // gcd by its characterisation: divides both, and every common divisor divides it
        Int a = lit("a", na, sgn()), b = lit("b", nb, sgn());
        long x = val(a), y = val(b);
        Int d = Int::gcd(a, b);
        long v = val(d);
        CHECK(v >= 0 && (v == 0) == (x == 0 && y == 0), "gcd is non-negative, and zero only for (0, 0)");
        if (v) CHECK(x % v == 0 && y % v == 0, "gcd divides both");
        long k = sym_range("k", 1, 99);
        if (v) CHECK(!(x % k == 0 && y % k == 0) || v % k == 0, "every common divisor divides the gcd");
        CHECK(Int::gcd(b, a) == d, "gcd is symmetric");
        CHECK(val(a) == x && val(b) == y, "operands unchanged");
        sym_cover("gcd");
        break;
    }
    case 1: {  // lcm and gcd of one number out of a range with every number of nb digits
        int x = sym_fork(sym_range("x", sym_param("lo", 0), sym_param("hi", 9))), s = sym_param("signs", 0);
        long y = 0; for (int i = 0; i < nb; i++) y = y * 10 + sym_range("d", i == 0 ? 1 : 0, 9);
        Int a(s & 1 ? -x : x), b((int)(s & 2 ? -y : y));
        long d = val(Int::gcd(a, b)), v = val(Int::lcm(b, a));
        CHECK(d == g(x, y), "gcd of a small and any number");
        if (x == 0 || y == 0) CHECK(v == 0, "lcm with zero is zero");
        else CHECK(v * d == x * y, "lcm * gcd == |a * b|");
        CHECK(Int::gcd(b, a) == Int::gcd(a, b), "gcd is symmetric");
        sym_cover("lcm");
        break;
    }
    case 2: {  // factorial
        int n = sym_fork(sym_range("n", 0, sym_param("max", 12)));
        Int f = Int(n).factorial(), e(1);
        for (int i = 1; i <= n; i++) e *= Int(i);
        CHECK(f == e, "n! is the product 1 * ... * n");
        if (n <= 18) { long r = 1; for (int i = 2; i <= n; i++) r *= i; CHECK(val(f) == r, "n! has the right value"); }
        Int m(-(int)sym_range("m", 1, 9));
        CHECK(throws([&] { m.factorial(); }), "the factorial of a negative integer is refused");
        break;
    }
    case 6: {  // numbers that pass for primes in many a quick test: pseudoprimes, Carmichael numbers, squares and products of neighbouring primes
        static const int Q[] = {341, 561, 1105, 1387, 1729, 1763, 1849, 1909, 2021, 2047, 2465, 2491, 2701, 2821, 3277, 3481, 3599, 4033, 4087, 4369, 4681, 5183, 5461, 5767, 6601, 7957, 8321, 8633, 8911, 9409, 9797,
            10201, 10403, 10585, 15841, 29341, 15347, 15349, 7919, 8191, 9973, 10007, 30031, 65521, 65537, 1018081, 1022117, 1026169, 994009, 1002001, 1000003, 1062961,
            25326001, 99460729, 100140049, 100160063, 99999989, 2147302921, 2147483647};
        int i = sym_fork(sym_range("i", sym_param("lo", 0), std::min<int>(sym_param("lo", 0) + sym_param("len", 8) - 1, std::size(Q) - 1)));
        CHECK(Int(Q[i]).is_prime() == prime(Q[i]), "is_prime");
        CHECK(Int(Q[i] - 1).next_prime() == Q[i] || !prime(Q[i]), "next_prime skips no prime");
        break;
    }
    case 3: {  // is_prime, next_prime
        int lo = sym_param("lo", 0);
        int n = sym_fork(sym_range("n", lo, lo + sym_param("len", 20)));
        Int a(n);
        CHECK(a.is_prime() == prime(n), "is_prime");
        CHECK(!n || !Int(-(n < 0 ? -n : n)).is_prime(), "a negative integer is not prime");
        long p = val(a.next_prime());
        CHECK(p > n && prime(p), "next_prime is a greater prime");
        bool none = true;
        for (long i = n + 1; i < p; i++) if (prime(i)) none = false;
        CHECK(none, "next_prime skips no prime");
        CHECK(val(a) == n, "operand unchanged");
        sym_cover("prime");
        break;
    }
    case 5: {  // long numbers with one digit that is any
        static const char* A[] = {"123456789012345678", "100000000000000000", "4294967296", "9223372036854775800", "18446744073709551610", "2147483640"};
        static const char* B[] = {"98765432109876543", "250000000000000000", "6442450944", "2305843009213693950", "36893488147419103232", "4611686014132420609"};
        int k = sym_param("k", 0), d = sym_fork(sym_range("d", 0, 9));
        unsigned __int128 x = d, y = 0;  // unsigned: the executor has no overflow check of 128 bits
        std::string s = A[k];
        for (char c : s) y = y * 10 + (c - '0');
        x += y; y = 0;
        for (const char* c = B[k]; *c; c++) y = y * 10 + (*c - '0');
        Int a = Int(s.c_str()) + d, b(B[k]);
        unsigned __int128 u = x, v = y;
        while (v) { unsigned __int128 t = u % v; u = v; v = t; }
        Int g1 = Int::gcd(a, b), g2 = Int::gcd(-b, a), l = Int::lcm(a, -b);
        for (char c : str(g1)) v = v * 10 + (c - '0');
        CHECK(v == u && g1 == g2 && g1.is_positive(), "gcd of long numbers");
        CHECK(l * g1 == a * b && l.is_positive(), "lcm of long numbers");
        break;
    }
    case 4: {  // gcd and lcm of longer numbers built from their parts: gcd(u d, v d) = d when gcd(u, v) = 1
        static const int U[] = {1, 2, 9, 35, 100}, W[] = {7, 3, 10, 99, 101};
        int k = sym_fork(sym_range("k", 0, 4));
        Int d = lit("d", na, 1), u(U[k]), w(W[k]);
        int sa = sgn();
        Int x = d * u, y = d * w;
        if (sa < 0) x = -x;
        CHECK(Int::gcd(x, y) == d && Int::gcd(y, x) == d, "gcd of multiples");
        CHECK(Int::lcm(x, y) == d * u * w, "lcm of multiples");
        CHECK(Int::gcd(x, Int()) == x.abs() && Int::gcd(Int(), y) == y, "gcd with zero");
        break;
    }
    }
}
