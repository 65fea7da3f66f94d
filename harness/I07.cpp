// Integer square root and logarithm are the exact floor values.
#include "h.h"
extern "C" void harness()
{
    int na = sym_param("na", 1);
    switch (MODE)
    {
    case 0: {  // every integer of na digits
        Int a = lit("a", na, 1);
        long n = val(a);
        Int r = Int::sqrt(a);
        long k = val(r);
        CHECK(k >= 0 && k * k <= n && n < (k + 1) * (k + 1), "sqrt is the floor of the square root");
        CHECK(val(a) == n, "operand unchanged");
        sym_cover("sqrt");
        break;
    }
    case 1: {  // around long squares: sqrt(k*k + d) for -1 <= d <= 2k
        static const char* K[] = {"99999", "100000", "31622", "123456789", "999999999", "1000000000", "99999999999", "316227766016", "4", "3", "7", "12"};
        Int k(K[sym_fork(sym_range("k", sym_param("k0", 0), sym_param("k1", 11)))]), s = k * k;
        int w = sym_fork(sym_range("w", 0, 4));
        Int x = w == 0 ? s - 1 : w == 1 ? s : w == 2 ? s + 1 : w == 3 ? s + k * 2 : s + k * 2 + 1;
        Int e = w == 0 ? k - 1 : w == 4 ? k + 1 : k;
        CHECK(Int::sqrt(x) == e, "sqrt next to a perfect square");
        break;
    }
    case 2: {  // logarithm
        Int a = lit("a", na, 1);
        int b = sym_fork(sym_range("b", sym_param("b0", 2), sym_param("b1", 12)));
        long n = val(a), v = val(Int::log(a, Int(b)));
        long p = 1;
        for (long i = 0; i < v; i++) p *= b;
        CHECK(v >= 0 && p <= n && n < p * b, "log is the floor of the logarithm");
        sym_cover("log");
        break;
    }
    case 3: {  // domain errors
        Int neg = lit("a", na, -1), pos = lit("p", 2, 1), z;
        int b = sym_range("b", -20, 1);
        CHECK(throws([&] { Int::sqrt(neg); }), "sqrt of a negative integer is refused");
        CHECK(throws([&] { Int::log(neg, Int(10)); }) && throws([&] { Int::log(z, Int(2)); }), "log of a non-positive integer is refused");
        CHECK(throws([&] { Int::log(pos, Int(b)); }), "log to a base below 2 is refused");
        CHECK(Int::sqrt(z) == 0, "sqrt(0) is 0");
        break;
    }
    case 5: {  // logarithm to longer bases
        static const char* B[] = {"10", "16", "60", "97", "100", "1000", "4294967296", "10000000000", "99999999999", "123456789123456789123456789"};
        Int b(B[sym_param("b", 0)]), p(1);
        int e = sym_fork(sym_range("e", 1, sym_param("max", 4)));
        for (int i = 0; i < e; i++) p *= b;
        CHECK(Int::log(p, b) == e && Int::log(p + 1, b) == e, "log(b^e) == e");
        CHECK(Int::log(p - 1, b) == e - 1, "log(b^e - 1) == e - 1");
        CHECK(Int::log(b - 1, b) == 0 && Int::log(Int(1), b) == 0, "log of less than the base is 0");
        Int x(1);
        x += Int("12345678901234567890") * p;
        Int v = Int::log(x, b), q(1);
        for (Int i; i < v; ++i) q *= b;
        CHECK(q <= x && x < q * b, "log is the floor of the logarithm");
        break;
    }
    case 4: {  // logarithm around long powers
        int b = sym_fork(sym_range("b", 2, 12)), e = sym_fork(sym_range("e", sym_param("e0", 1), sym_param("e1", 8)));
        Int p(1);
        for (int i = 0; i < e; i++) p *= Int(b);
        CHECK(Int::log(p, Int(b)) == e, "log(b^e) == e");
        CHECK(Int::log(p - 1, Int(b)) == e - 1 || p == 1, "log(b^e - 1) == e - 1");
        CHECK(Int::log(p * b - 1, Int(b)) == e, "log(b^(e+1) - 1) == e");
        break;
    }
    }
}
