// Fractions print as n or n/d, and reading what was printed gives the fraction back; anything else is refused.
#include "f.h"
#include <sstream>
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // printed form, and back
        int p = sym_param("p", 1), l = sym_param("l", 99);
        long n = sym_fork(sym_range("n", -l, l)), d = gcdOf(n, p);
        const Fraction f((int)n, p);
        std::string s = str(f), want = std::to_string(n / d);
        if (p / d != 1) want += "/" + std::to_string(p / d);
        sameText(s, want, "a fraction prints in lowest terms");
        Fraction g(5, 7), h(5, 7);
        std::istringstream is(s + " " + s);
        is >> g >> h;
        CHECK(g == f && h == f && !is.fail(), "reading what was printed gives the fraction back");
        sym_cover("round trip");
        break;
    }
    case 1: {  // any text
        int n = sym_param("n", 3);
        std::string s(n, 0);
        for (int i = 0; i < n; i++) s[i] = sym_param("few", 0) ? "05+-/ .x"[sym_range("t", 0, 7)] : sym_range("t", -128, 127);
        static const char* const right[] = {"12/7", "-3/-8 ", " +6", "\n2/+4"};
        if (sym_param("near", 0)) n = (s = nearly(right[sym_param("near", 0) - 1])).size();
        // the grammar: blanks, sign, digits, then blank or end, or '/', sign, digits, then blank or end
        int i = 0;
        auto at = [&](int k) { return k < n ? (int)(u8)s[k] : -1; };
        auto digit = [&](int k) { return sym_fork(at(k) >= '0' && at(k) <= '9') != 0; };
        auto number = [&](long& v) {
            bool neg = sym_fork(at(i) == '-'), pos = sym_fork(at(i) == '+');
            i += neg | pos;
            if (!digit(i)) return false;
            for (v = 0; digit(i); i++) v = v * 10 + (s[i] - '0');
            if (neg) v = -v;
            return true;
        };
        while (i < n && sym_fork(at(i) <= ' ')) i++;
        long N = 0, D = 1;
        bool ok = number(N);
        if (ok && i < n && !sym_fork(at(i) <= ' ')) ok = sym_fork(at(i++) == '/') && number(D) && (i == n || sym_fork(at(i) <= ' '));
        if (ok && sym_fork(D == 0)) ok = false;
        Fraction f(5, 7);
        std::istringstream is(s);
        bool bad = throws([&] { is >> f; });
        CHECK((!bad && !is.fail()) == ok, "exactly the texts of the grammar are accepted");
        if (ok)
        {
            D = sym_fork(D);
            long c = (D == 1 || D == -1 ? 1 : gcdOf(N = sym_fork(N), D)) * (D < 0 ? -1 : 1);
            CHECK(f.numerator() == (int)(N / c) && f.denominator() == D / c, "the fraction that the text spells");
            sym_cover("accepted");
        }
        else sym_cover("refused");
        break;
    }
    case 2: {  // numbers of several digits
        int n = sym_param("n", 5), m = sym_param("m", 1);
        std::string s = sym_fork(sym_range("neg", 0, 1)) ? "-" : "";
        long N = 0;
        for (int i = 0; i < n; i++) { int d = sym_range("d", 0, 9); s += '0' + d; N = N * 10 + d; }
        if (s[0] == '-') N = -N;
        if (m > 1) s += "/" + std::to_string(m);
        Fraction f(5, 7);
        std::istringstream is(s);
        bool bad = throws([&] { is >> f; });
        bool fits = sym_fork(N >= INT_MIN && N <= INT_MAX);
        if (!fits) { CHECK(bad || is.fail(), "a number that is not an int is refused"); sym_cover("out of range"); break; }
        CHECK(!bad && !is.fail(), "a fraction of ints is accepted");
        long r = m > 1 ? gcdOf(sym_fork(((N % m) + m) % m), m) : 1;
        CHECK(f.numerator() == (int)(N / r) && f.denominator() == m / r, "the fraction that the text spells");
        sym_cover("accepted");
        break;
    }
    }
}
