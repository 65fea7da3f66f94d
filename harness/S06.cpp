// Text to integer in any base: exact acceptance, exact value.
#include "h.h"
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
extern "C" void harness()
{
    int n = sym_param("n", 2), base = sym_param("base", 10);
    switch (MODE)
    {
    case 0: {  // any text
        static const char* const right[] = {"12345678901", " -z9A0 \n", "+7"};
        std::string t = sym_param("near", 0) ? nearly(right[sym_param("near", 0) - 1]) : text("t", n);
        n = t.size();
        Int r;
        bool bad = throws([&] { r = Str(t).to_integer(base); });
        int a = 0, b = n;
        while (a < n && blank(t[a])) a++;
        while (b > a && blank(t[b - 1])) b--;
        bool neg = false;
        if (a < b && (t[a] == '+' || t[a] == '-')) neg = t[a++] == '-';
        bool ok = a < b;
        long v = 0;
        for (int i = a; i < b; i++) { int d = digit(t[i]); if (d >= base) { ok = false; break; } v = v * base + d; }
        CHECK(bad == !ok, "text is accepted exactly when it is an integer of the base, with sign and blanks around it");
        if (bad) { sym_cover("refused"); break; }
        CHECK(val(r) == (neg ? -v : v), "the value of the text");
        sym_cover("accepted");
        break;
    }
    case 1: {  // any base
        int b = anyInt("base");
        sym_assume(b < 2 || b > 36);
        CHECK(throws([&] { Str("1").to_integer(b); }), "a base outside 2..36 is refused");
        CHECK(throws([&] { Str("").to_integer(b); }), "a base outside 2..36 is refused");
        break;
    }
    case 2: {  // one digit in every base
        int b = sym_fork(sym_range("base", 2, 36));
        std::string t = text("t", 1);
        Int r;
        bool bad = throws([&] { r = Str("1" + t).to_integer(b); });
        int d = digit(t[0]);
        CHECK(bad == (d >= b && !blank(t[0])), "the digits of a base");
        if (!bad) CHECK(val(r) == (blank(t[0]) ? 1 : b + d), "the value in a base");
        sym_cover("every base");
        break;
    }
    case 4: {  // long text in the base: one digit is any, the others are the greatest (or a mixed pattern)
        int k = sym_fork(sym_range("at", 0, n - 1)), pat = sym_param("pat", 0), v = sym_fork(sym_range("digit", 0, base - 1));
        static const char *lo = "0123456789abcdefghijklmnopqrstuvwxyz", *up = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
        std::string t(n, 0);
        Num x;
        x.n = 0;
        for (int i = 0; i < n; i++)
        {
            int d = i == k ? v : pat == 0 ? base - 1 : pat == 1 ? (i ? 0 : 1) : (i * 7 + 5) % base;
            t[i] = (pat == 2 ? up : lo)[d];
            for (int j = 0, c = d; j < x.n || c; j++) { if (j == x.n) x.d[x.n++] = 0; int w = x.d[j] * base + c; x.d[j] = (unsigned)w % 10; c = (unsigned)w / 10; if (j >= 100) break; }
        }
        x.norm();
        Int r = Str((pat == 2 ? "  -" : "") + t + (pat ? " \n" : "")).to_integer(base);
        x.neg = pat == 2 && x.n;
        same(r, x, "the value of a long text");
        sym_cover("accepted");
        break;
    }
    case 3: {  // long decimal text is the literal
        Num x = numOf("d", n, sgn() < 0);
        std::string t;
        for (int i = 0; i < x.n; i++) t += '0' + x.d[x.n - 1 - i];
        Int r = Str((x.neg ? "-" : "") + t).to_integer();
        same(r, x, "decimal text is the integer it spells");
        break;
    }
    }
}
