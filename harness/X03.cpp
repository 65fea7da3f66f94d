// Complex numbers print as (a+bj); reading accepts exactly real, imaginary and complex literals.
#include "h.h"
#include <sstream>
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // printed form, and back without the brackets
        int l = sym_param("l", 30);
        int a = sym_fork(sym_range("a", -l, l)), b = sym_fork(sym_range("b", -l, l)), h = sym_param("half", 0);
        const Complex z(h ? a / 4.0 : a, h ? b / 2.0 : b);
        auto num = [](double v) { std::ostringstream os; os << v; return os.str(); };
        std::string s = str(z), want = num(z.real());
        want += z.imag() < 0 ? "-" : "+";
        want += num(z.imag() < 0 ? -z.imag() : z.imag());
        want += "j";
        sameText(s, "(" + want + ")", "the printed form");
        Complex x(5, 7), y(5, 7), u(5, 7), v(5, 7);
        std::istringstream is(want + " \n" + num(z.imag()) + "j\t" + num(z.real()) + " " + want);
        is >> x >> y >> u >> v;
        CHECK(!is.fail(), "reading what was printed");
        CHECK(x.real() == z.real() && x.imag() == z.imag() && v.real() == z.real() && v.imag() == z.imag(), "reading a complex literal");
        CHECK(y.real() == 0 && y.imag() == z.imag(), "reading an imaginary literal");
        CHECK(u.real() == z.real() && u.imag() == 0, "reading a real literal");
        sym_cover("round trip");
        break;
    }
    case 1: {  // any text
        int n = sym_param("n", 3);
        std::string s = text("t", n, sym_param("few", 0) ? 0 : -128, sym_param("few", 0) ? 7 : 127);
        if (sym_param("few", 0)) for (int i = 0; i < n; i++) s[i] = "05+-.j x"[(int)s[i]];
        static const char* const right[] = {"1.5+2j", "-3j ", " +.25-10.j", "\n7.50"};
        if (sym_param("near", 0)) n = (s = nearly(right[sym_param("near", 0) - 1])).size();
        for (int i = 0; i < n; i++) sym_assume((s[i] != 'e') & (s[i] != 'E'));
        int i = 0;
        auto at = [&](int k) { return k < n ? (int)(u8)s[k] : -1; };
        auto digit = [&](int k) { return sym_fork(at(k) >= '0' && at(k) <= '9') != 0; };
        auto number = [&](double& v) {  // sign, digits, point, digits
            bool neg = sym_fork(at(i) == '-'), pos = sym_fork(at(i) == '+'), any = false;
            i += neg | pos;
            long m = 0, p = 1;
            for (; digit(i); i++) { m = m * 10 + (s[i] - '0'); any = true; }
            if (sym_fork(at(i) == '.')) for (i++; digit(i); i++) { m = m * 10 + (s[i] - '0'); p *= 10; any = true; }
            v = (double)(neg ? -m : m) / p;
            return any;
        };
        auto end = [&] { return i == n || sym_fork(at(i) <= ' '); };
        while (i < n && sym_fork(at(i) <= ' ')) i++;
        double a = 0, b = 0;
        bool ok = number(a);
        if (ok && !end())
        {
            if (sym_fork(at(i) == 'j')) { i++; b = a; a = 0; }
            else ok = (sym_fork(at(i) == '+') || sym_fork(at(i) == '-')) && number(b) && sym_fork(at(i++) == 'j');
            ok = ok && end();
        }
        Complex z(5, 7);
        std::istringstream is(s);
        bool bad = throws([&] { is >> z; });
        CHECK((!bad && !is.fail()) == ok, "exactly the texts of the grammar are accepted");
        if (ok) { CHECK(z.real() == a && z.imag() == b, "the number that the text spells"); sym_cover("accepted"); }
        else sym_cover("refused");
        break;
    }
    case 2: {  // literals with exponents and many digits
        static const char* lit[] = {"1e3+2e-2j", "-1.5E+2-0.25e1j", "1e400", "1e5j", "+.5-.5j", "1e-3", "123456789.125-0.5j", "1e+j", "1ej", "12e", "1e3j2"};
        static const double re[] = {1000, -150, 0, 0, .5, 1e-3, 123456789.125, 0, 0, 0, 0}, im[] = {2e-2, -2.5, 0, 1e5, -.5, 0, -.5, 0, 0, 0, 0};
        int k = sym_fork(sym_range("lit", 0, 10));
        bool ok = k != 2 && k < 7;
        Complex z(5, 7);
        std::istringstream is(lit[k]);
        bool bad = throws([&] { is >> z; });
        CHECK((!bad && !is.fail()) == ok, "literals with exponents");
        if (ok) CHECK(z.real() == re[k] && z.imag() == im[k], "the value of a literal with exponents");
        sym_cover("exponent");
        break;
    }
    }
}
