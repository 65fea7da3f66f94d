// pow(base, exp, mod) is base**exp, reduced modulo mod when mod is not zero.
#include "h.h"
extern "C" void harness()
{
    int na = sym_param("na", 1), e = sym_param("e", 3);
    switch (MODE)
    {
    case 0: {  // any base, fixed exponent
        Int a = lit("a", na, sgn());
        long x = val(a), r = 1;
        for (int i = 0; i < e; i++) r *= x;
        Int p = Int::pow(a, Int(e));
        CHECK(val(p) == r, "pow(base, exp)");
        CHECK(val(a) == x, "operand unchanged");
        sym_cover("pow");
        break;
    }
    case 1: {  // modular: any base of na digits, fixed modulus and exponent
        int y = sym_param("m", 7);
        Int a = lit("a", na, sgn()), m(y);
        long x = val(a), r = 1;
        for (int i = 0; i < e; i++) r = r * x % y;
        CHECK(val(Int::pow(a, Int(e), m)) == r, "pow(base, exp, mod) == (base**exp) % mod");
        CHECK(val(a) == x && val(m) == y, "operands unchanged");
        sym_cover("modpow");
        break;
    }
    case 6: {  // modular: fixed base and exponent, any modulus of nb digits
        static const int B[] = {2, -3, 7, 10, 12, -99, 6, -60};
        int nb = sym_param("nb", 1), x = B[sym_param("b", 0)];
        Int m = lit("m", nb, sgn());
        long y = val(m), r = 1;
        for (int i = 0; i < e; i++) r *= x;
        CHECK(val(Int::pow(Int(x), Int(e), m)) == r % y, "pow(base, exp, mod) == (base**exp) % mod, for any modulus");
        sym_cover("any modulus");
        break;
    }
    case 2: {  // exponents and signs: bases of absolute value 0 and 1, and negative exponents
        int b = sym_fork(sym_range("b", -1, 1)), n = sym_range("n", -2000000000, 2000000000);
        Int B(b);
        int neg = n < 0, odd = n & 1;
        if (b == 0)
        {
            if (neg) CHECK(throws([&] { Int::pow(B, Int(-5)); }), "0 ** negative is refused");
            CHECK(Int::pow(B, Int(0)) == 1 && Int::pow(B, Int(3)) == 0, "0 ** 0 == 1 and 0 ** 3 == 0");
        }
        else CHECK(val(Int::pow(B, Int(n))) == (b == 1 || !odd ? 1 : -1), "powers of 1 and -1");
        break;
    }
    case 3: {
        Int a = lit("a", na, sgn());
        long x = val(a);
        int n = sym_range("n", -99, -1);
        if (x > 1 || x < -1) CHECK(Int::pow(a, Int(n)) == 0, "a negative power truncates to 0");
        CHECK(Int::pow(a, Int(0)) == 1, "x ** 0 == 1");
        CHECK(Int::pow(a, Int(1)) == a, "x ** 1 == x");
        break;
    }
    case 7: {  // huge exponents with one digit that is any, and long moduli
        static const char* E[] = {"429496729", "214748364", "1844674407370955161", "10000000000", "99999999999999999999999"};
        static const long B[] = {2, -3, 7, 1234567891, -99999999977, 10};
        static const long M[] = {97, -10, 1000000007, 999999999989, 1 << 20, -123456789012};
        int k = sym_param("k", 0), d = sym_fork(sym_range("d", 0, 9));
        std::string s = E[k];
        s += (char)('0' + d);
        long b = B[sym_param("b", 0)], m = M[sym_param("m", 0)];
        auto times = [&](long x, long y) { return (long)((i128)x * y % m); };
        long r = 1 % m;
        for (char c : s)
        {
            long r2 = times(r, r), r4 = times(r2, r2);
            r = times(times(r4, r4), r2);
            for (int i = 0; i < c - '0'; i++) r = times(r, b);
        }
        Int x = b > INT_MAX || b < INT_MIN ? Int(std::to_string(b).c_str()) : Int((int)b), y(std::to_string(m).c_str());
        CHECK(val(Int::pow(x, Int(s.c_str()), y)) == r, "pow with a huge exponent");
        CHECK(Int::pow(x, -Int(s.c_str()), y) == 0, "a negative power truncates to 0");
        sym_cover("huge exponent");
        break;
    }
    case 4: {  // long exponents, concrete: against repeated multiplication
        int b = sym_fork(sym_range("b", 2, 11)), n = sym_fork(sym_range("n", sym_param("n0", 0), sym_param("n1", 20))), sg = sgn();
        Int B(sg * b), r(1), M(sym_param("m", 97)), q(1);
        q %= M;
        for (int i = 0; i < n; i++) { r *= B; q = (q * B) % M; }
        CHECK(Int::pow(B, Int(n)) == r, "pow is repeated multiplication");
        CHECK(Int::pow(B, Int(n), M) == q, "modular pow is repeated multiplication modulo mod");
        sym_cover("repeated");
        break;
    }
    case 5: {  // laws for a modulus of one
        Int a = lit("a", na, sgn());
        int n = sym_fork(sym_range("n", 0, 3));
        CHECK(Int::pow(a, Int(n), Int(1)) == 0 && Int::pow(a, Int(n), Int(-1)) == 0, "everything is 0 modulo 1");
        break;
    }
    }
}
