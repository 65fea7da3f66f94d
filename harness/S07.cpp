// Text to decimal: exact acceptance, and the value the text spells.
#include "h.h"
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static const double P[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static void near(double r, bool neg, long m, int sc)  // r is m * 10**sc up to rounding
{
    double want = (double)m;
    for (; sc > 22; sc -= 22) want *= 1e22;
    for (; sc < -22; sc += 22) want /= 1e22;
    if (sc > 0) want *= P[sc]; else if (sc < 0) want /= P[-sc];
    if (neg) want = -want;
    CHECK(r == want || std::abs(r - want) <= std::abs(want) * 1e-12, "the value is the number that the text spells");
}
static bool spelled(const std::string& t, bool& neg, long& m, int& sc)
{
    size_t a = 0, b = t.size();
    while (a < b && blank(t[a])) a++;
    while (b > a && blank(t[b - 1])) b--;
    neg = false; m = 0; sc = 0;
    bool any = false;
    if (a < b && (t[a] == '+' || t[a] == '-')) neg = t[a++] == '-';
    for (; a < b && dig(t[a]); a++) { any = true; m = m * 10 + (t[a] - '0'); }
    if (a < b && t[a] == '.') { a++; for (; a < b && dig(t[a]); a++) { any = true; m = m * 10 + (t[a] - '0'); sc--; } }
    if (!any) return false;
    if (a < b && (t[a] == 'e' || t[a] == 'E'))
    {
        int e = 0; bool en = false; size_t k = ++a;
        if (a < b && (t[a] == '+' || t[a] == '-')) { en = t[a] == '-'; k = ++a; }
        for (; a < b && dig(t[a]); a++) e = e * 10 + (t[a] - '0');
        if (a == k) return false;
        e = sym_fork(e);
        sc += en ? -e : e;
    }
    return a == b;
}
extern "C" void harness()
{
    int n = sym_param("n", 2);
    switch (MODE)
    {
    case 0: {  // any text
        static const char* const right[] = {"12.5e-3 ", " -.25", "\t+7.", "Infinity", "-INFINITY", "+infinity", "NaN", "3E15", "-Inf"};
        std::string t = sym_param("near", 0) ? nearly(right[sym_param("near", 0) - 1]) : text("t", n);
        double r = 0;
        bool bad = throws([&] { r = Str(t).to_decimal(); });
        if (!bad && r != r) { for (auto w : {"nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"}) if (t == w) { sym_cover("nan"); return; } CHECK(0, "only nan is not a number"); }
        bool neg; long m; int sc;
        bool ok = spelled(t, neg, m, sc), inf = false;
        for (auto w : {"inf", "INF", "Inf", "+inf", "+INF", "+Inf", "-inf", "-INF", "-Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity", "-infinity", "-INFINITY", "-Infinity"}) if (t == w) inf = true;
        for (auto w : {"nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"}) CHECK(t != w, "nan is not a number");
        CHECK(bad == !(ok || inf), "text is accepted exactly when it is a decimal number or one of the names");
        if (inf) { CHECK(r == (t[0] == '-' ? -HUGE_VAL : HUGE_VAL), "infinity"); sym_cover("inf"); }
        else if (ok) { near(r, neg, m, sc); sym_cover("number"); }
        else sym_cover("refused");
        break;
    }
    case 1: {  // i digits, point, f digits, exponent of x digits, with blanks and signs
        int i = sym_param("i", 2), f = sym_param("f", 0), x = sym_param("x", 0), sg = sym_param("sg", 0), bl = sym_param("blanks", 0);
        std::string t;
        long m = 0; int e = 0;
        for (int k = 0; k < bl; k++) t += " \t\n\r"[k % 4];
        if (sg) t += sg > 1 ? '+' : '-';
        for (int k = 0; k < i; k++) { int d = sym_range("d", 0, 9); t += '0' + d; m = m * 10 + d; }
        if (f >= 0) t += '.';
        for (int k = 0; k < f; k++) { int d = sym_range("d", 0, 9); t += '0' + d; m = m * 10 + d; }
        bool en = false;
        if (x)
        {
            t += sym_fork(sym_range("E", 0, 1)) ? 'E' : 'e';
            int s = sym_fork(sym_range("es", 0, 2));
            if (s) t += s > 1 ? '+' : '-';
            en = s == 1;
            for (int k = 0; k < x; k++) { int d = sym_range("x", 0, k < x - 2 ? 0 : k == x - 2 ? 1 : 9); t += '0' + d; e = e * 10 + d; }
            e = sym_fork(e);
        }
        for (int k = 0; k < bl; k++) t += "\r\n \t"[k % 4];
        double r = Str(t).to_decimal();
        int sc = (en ? -e : e) - std::max(f, 0);
        near(r, sg == 1, m, sc);
        sym_cover("structured");
        break;
    }
    case 2: {  // exponents outside the range of double, of x digits
        int x = sym_param("x", 5);
        std::string t = "7.5e", z = ".0e";
        bool en = sym_fork(sym_range("en", 0, 1));
        if (en) { t += '-'; z += '-'; }
        for (int k = 0; k < x; k++) { char d = '0' + sym_range("x", k ? 0 : 4, 9); t += d; z += d; }
        double r = Str(t).to_decimal(), q = Str("-" + t).to_decimal(), v = Str(z).to_decimal();
        CHECK(r == (en ? 0.0 : HUGE_VAL) && q == -r, "an exponent outside the range gives HUGE_VAL or zero");
        CHECK(v == 0, "zero with any exponent is zero");
        sym_cover("out of range");
        break;
    }
    case 3: {  // long digit strings (one number each)
        int z = sym_param("z", 330);
        double a = Str("5" + std::string(z, '0') + "e-" + std::to_string(z)).to_decimal();
        double b = Str("." + std::string(z, '0') + "5e" + std::to_string(z + 1)).to_decimal();
        CHECK(std::abs(a - 5) < 1e-12 && std::abs(b - 5) < 1e-12, "long digit strings");
        double c = Str("5" + std::string(z, '0')).to_decimal();
        CHECK(z < 308 || c == HUGE_VAL, "too many digits give HUGE_VAL");
        for (auto w : {"infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity"}) CHECK(Str(w).to_decimal() == HUGE_VAL, "infinity");
        for (auto w : {"-infinity", "-INFINITY", "-Infinity"}) CHECK(Str(w).to_decimal() == -HUGE_VAL, "minus infinity");
        break;
    }
    }
}
