// Complex arithmetic on parts that are whole numbers, where it is exact.
#include "h.h"
#include <cmath>
static bool is(const Complex& z, double re, double im) { return (z.real() == re) & (z.imag() == im); }
static long part(const char* nm, long l) { return sym_range(nm, -l, l); }
extern "C" void harness()
{
    const long L = 1 << 20;
    switch (MODE)
    {
    case 0: {  // sums, differences, products
        long a = part("a", L), b = part("b", L), c = part("c", L), d = part("d", L);
        const Complex x(a, b), y(c, d);
        CHECK(is(x, a, b), "the parts of a complex number");
        CHECK(is(x + y, a + c, b + d), "sum");
        CHECK(is(x - y, a - c, b - d), "difference");
        CHECK(is(x * y, (double)(a * c - b * d), (double)(a * d + b * c)), "product");
        Complex z(x);
        z += y;
        CHECK(is(z, a + c, b + d), "sum in place");
        z = x; z -= y;
        CHECK(is(z, a - c, b - d), "difference in place");
        z = x; z *= y;
        CHECK(is(z, (double)(a * c - b * d), (double)(a * d + b * c)), "product in place");
        z = x; z *= z;
        CHECK(is(z, (double)(a * a - b * b), (double)(2 * a * b)), "a number times itself");
        z = x; z -= z;
        CHECK(is(z, 0, 0), "a number less itself");
        z = x; z += z;
        CHECK(is(z, 2 * a, 2 * b), "a number and itself");
        CHECK(is(x, a, b) && is(y, c, d), "the operands are unchanged");
        sym_cover("arithmetic");
        break;
    }
    case 1: {  // signs, conjugate, copies
        long a = part("a", L * L), b = part("b", L * L);
        const Complex x(a, b), r(a), o;
        CHECK(is(r, a, 0) && is(o, 0, 0), "a real number and zero");
        CHECK(is(-x, -a, -b), "opposite");
        CHECK(is(+x, a, b), "unary plus");
        CHECK(is(x.conjugate(), a, -b), "conjugate");
        Complex z(x), m(std::move(z));
        CHECK(is(m, a, b) && is(z, 0, 0), "a moved number keeps its value, the other is zero");
        z = std::move(m);
        CHECK(is(z, a, b) && is(m, 0, 0), "a moved number keeps its value, the other is zero");
        m = z; z += 1;
        CHECK(is(m, a, b) && is(z, a + 1, b), "copies are independent");
        CHECK(is(x + 1, a + 1, b) && is(x - 1, a - 1, b), "real numbers take part in arithmetic");
        sym_cover("unary");
        break;
    }
    case 2: {  // quotients by a fixed divisor (c + dj): (q * y) / y is q, and x / y is exact when the norm is a power of two
        int c = sym_param("c", 1), d = sym_param("d", 1);
        long a = part("a", L), b = part("b", L), n = (long)c * c + (long)d * d;
        const Complex y(c, d), q(a, b), x(a * c - b * d, a * d + b * c);
        if (n == 0)
        {
            Complex z(q);
            CHECK(throws([&] { q / y; }) && throws([&] { z /= y; }), "division by zero is refused");
            CHECK(is(z, a, b) && is(q, a, b), "a refused division changes nothing");
            sym_cover("by zero");
            break;
        }
        CHECK(is(x / y, a, b), "quotient");
        Complex z(x);
        z /= y;
        CHECK(is(z, a, b), "quotient in place");
        if ((n & (n - 1)) == 0)
        {
            Complex h = q / y;
            CHECK(h.real() * n == a * c + b * d && h.imag() * n == b * c - a * d, "quotient with a fraction");
        }
        z = y; z /= z;
        CHECK(is(z, 1, 0), "a number divided by itself");
        CHECK(is(q, a, b) && is(y, c, d), "the operands are unchanged");
        sym_cover("quotient");
        break;
    }
    case 3: {  // distance and angle
        int k = sym_fork(sym_range("k", 1, sym_param("k", 40)));
        static const int legs[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {20, 21, 29}, {0, 1, 1}};
        int w = sym_fork(sym_range("legs", 0, 4)), s = sym_fork(sym_range("s", -1, 1)) < 0 ? -1 : 1, t = sym_fork(sym_range("t", -1, 1)) < 0 ? -1 : 1;
        const Complex x(s * k * legs[w][0], t * k * legs[w][1]), y(t * k * legs[w][1], s * k * legs[w][0]);
        CHECK(x.abs() == k * legs[w][2] && y.abs() == k * legs[w][2], "absolute value");
        const double pi = 3.14159265358979323846;
        auto near = [](double u, double v) { return u - v < 1e-12 && v - u < 1e-12; };
        CHECK(near(std::cos(x.arg()) * x.abs(), x.real()) && near(std::sin(x.arg()) * x.abs(), x.imag()), "the angle has the parts as its cosine and sine");
        CHECK(x.arg() <= pi && x.arg() >= -pi && y.arg() <= pi && y.arg() >= -pi, "the range of the angle");
        CHECK(near(Complex(k, s * k).arg(), s * pi / 4) && near(Complex(-k, s * k).arg(), s * 3 * pi / 4) && near(Complex(0, s * k).arg(), s * pi / 2), "the angle of the diagonals");
        CHECK(near(Complex(k).arg(), 0) && near(Complex(-k).arg(), pi), "the angle of real numbers");
        const double up = sym_fork(sym_range("scale", 0, 1)) ? 1e200 : 1e-200;
        const Complex h(x.real() * up, x.imag() * up);
        CHECK(near(h.abs() / (k * legs[w][2] * up), 1) && near(h.arg(), x.arg()), "the absolute value and the angle of very large and very small numbers");
        sym_cover("polar");
        break;
    }
    case 4: {  // power
        int a = sym_fork(sym_range("a", -4, 4)), b = sym_fork(sym_range("b", -4, 4)), e = sym_fork(sym_range("e", -3, 6));
        const Complex x(a, b);
        Complex p, want(1);
        bool bad = throws([&] { p = Complex::pow(x, e); });
        CHECK(bad == (a == 0 && b == 0 && e != 0), "a power is refused exactly when the base is zero and the exponent is not");
        if (bad) { sym_cover("no power"); break; }
        for (int i = 0; i < (e < 0 ? -e : e); i++) want *= x;
        if (e < 0) want = Complex(1) / want;
        double scale = want.abs() + 1, dr = p.real() - want.real(), di = p.imag() - want.imag();
        CHECK(dr < 1e-11 * scale && -dr < 1e-11 * scale && di < 1e-11 * scale && -di < 1e-11 * scale, "the power is the repeated product");
        if (e == 0) CHECK(is(p, 1, 0), "the power with exponent zero is one");
        CHECK(is(x, a, b), "the base is unchanged");
        sym_cover("power");
        break;
    }
    case 5: {  // power with complex exponents: exp(exp * log(base))
        int a = sym_fork(sym_range("a", -2, 2)), b = sym_fork(sym_range("b", -2, 2)), c = sym_fork(sym_range("c", -2, 2)), d = sym_fork(sym_range("d", -2, 2));
        if (a == 0 && b == 0) { CHECK(throws([&] { Complex::pow(Complex(), Complex(c, d)); }) == (c != 0 || d != 0), "a power is refused exactly when the base is zero and the exponent is not"); sym_cover("no power"); break; }
        double l = std::log((double)(a * a + b * b)) / 2, t = std::atan2((double)b, (double)a), r = std::exp(c * l - d * t), u = d * l + c * t;
        Complex p = Complex::pow(Complex(a, b), Complex(c, d));
        double dr = p.real() - r * std::cos(u), di = p.imag() - r * std::sin(u), tol = 1e-11 * (1 + r);
        CHECK(dr < tol && -dr < tol && di < tol && -di < tol, "the principal value of the power");
        sym_cover("power");
        break;
    }
    }
}
