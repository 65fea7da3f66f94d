// Literals: parsing, construction from int and printing agree, and what is not an integer literal is refused.
#include "h.h"
static bool isLiteral(const char* s, int n)
{
    int i = n > 0 && (s[0] == '+' || s[0] == '-');
    if (i == n) return false;
    for (; i < n; i++) if (s[i] < '0' || s[i] > '9') return false;
    return true;
}
// sign and digits without leading zeros, from a literal
static std::string canon(const char* s, int n)
{
    int i = s[0] == '+' || s[0] == '-';
    bool neg = s[0] == '-';
    while (i < n && s[i] == '0') i++;
    if (i == n) return "0";
    return (neg ? "-" : "") + std::string(s + i, n - i);
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    char b[64];
    switch (MODE)
    {
    case 0: {  // every byte string of length n
        static const char* const right[] = {"12345678901234567890", "-00407", "+99999999"};
        std::string t = sym_param("near", 0) ? nearly(right[sym_param("near", 0) - 1]) : text("c", n);
        n = t.size();
        for (int i = 0; i < n; i++) { b[i] = t[i]; sym_assume(b[i] != 0); }
        b[n] = 0;
        bool ok = isLiteral(b, n), parsed = false;
        Int a(12345);
        try { a = Int(b); parsed = true; }
        catch (const std::runtime_error&) {}
        CHECK(parsed == ok, "exactly the strings [+-]?[0-9]+ are accepted as integer literals");
        if (ok) { CHECK(str(a) == canon(b, n), "a literal prints back in canonical form"); sym_cover("accepted"); }
        else { CHECK(str(a) == "12345", "a refused literal changes nothing"); sym_cover("refused"); }
        break;
    }
    case 1: {  // every int, by number of digits
        int neg = sym_fork(sym_range("neg", 0, 1));
        char dg[16];
        long m = n ? upTo(n, neg ? "2147483648" : "2147483647", dg) : 0;
        long v = neg ? -m : m;
        Int a((int)v);
        CHECK(val(a) == v, "Int(int) has that value");
        CHECK(a.digits() == n, "digits() of Int(int)");
        CHECK(a.is_zero() == (v == 0) && a.is_positive() == (v > 0) && a.is_negative() == (v < 0), "sign of Int(int)");
        CHECK(a.to_integer<long>() == v, "to_integer of Int(int)");
        Int c; c = (int)v;
        CHECK(c == a, "assignment from int");
        if (neg && n == 10) sym_cover("ten digit negative int");
        break;
    }
    case 2: {  // long literals: any digits, with sign and leading zeros
        int z = sym_param("zeros", 0), p = 0, sg = sym_fork(sym_range("sg", 0, 2));
        if (sg) b[p++] = sg == 1 ? '-' : '+';
        for (int i = 0; i < z; i++) b[p++] = '0';
        for (int i = 0; i < n; i++) b[p++] = '0' + sym_range("d", i == 0 ? 1 : 0, 9);
        b[p] = 0;
        Int a(b);
        CHECK(str(a) == canon(b, p), "a long literal prints back in canonical form");
        CHECK(a.digits() == n, "digits() is the number of decimal digits");
        std::string t = str(a);
        CHECK(Int(t.c_str()) == a, "parsing the printed form gives the same integer");
        CHECK(str(-a) == (n == 0 ? "0" : sg == 1 ? t.substr(1) : "-" + t), "printing the negation");
        sym_cover("long literal");
        break;
    }
    case 3: {  // stream input: one whitespace-delimited token
        int sp = sym_fork(sym_range("sp", 0, 2));
        std::string in(sp, ' ');
        for (int i = 0; i < n; i++) { b[i] = sym_range("c", 1, 127); sym_assume(b[i] > ' '); in += b[i]; }
        b[n] = 0;
        in += " 77";
        std::istringstream is(in);
        Int a, c;
        bool ok = isLiteral(b, n), parsed = false;
        try { is >> a; parsed = true; }
        catch (const std::runtime_error&) {}
        CHECK(parsed == ok, "stream input accepts exactly the integer literals");
        if (ok) { CHECK(str(a) == canon(b, n), "the integer read is the token"); is >> c; CHECK(str(c) == "77", "the next token is left in the stream"); sym_cover("read"); }
        break;
    }
    }
}
