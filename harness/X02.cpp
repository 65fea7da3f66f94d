// Complex equality: reflexive, symmetric, tolerant of the last bits near zero only; equal numbers hash equally.
#include "h.h"
#include <cmath>
static double dbl(const char* nm)  // any double
{
    long v = sym_range(nm, LONG_MIN, LONG_MAX);
    double d;
    std::memcpy(&d, &v, 8);
    return d;
}
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // any number and itself
        double a = dbl("a");
        sym_assume(a == a);
        Complex x(a, 1), y(x), z(2, a);
        CHECK(x == y && y == x && !(x != y), "a number is equal to its copy");
        CHECK(z == z && !(z != z), "a number is equal to itself");
        CHECK((x == z) == (z == x), "equality is symmetric");
        CHECK(std::hash<Complex>{}(x) == std::hash<Complex>{}(y), "copies hash equally");
        sym_cover("same");
        break;
    }
    case 1: {  // numbers that differ in one part by at least the tolerance
        double a = dbl("a"), b = dbl("b");
        sym_assume(a == a && b == b && a != b);
        const double d = a - b, e = std::numeric_limits<double>::epsilon();
        bool far = !((d < e) & (d > -e));
        CHECK((Complex(a, 3) == Complex(b, 3)) == !far, "numbers are equal when the real parts differ by less than the tolerance");
        CHECK((Complex(3, a) == Complex(3, b)) == !far, "numbers are equal when the imaginary parts differ by less than the tolerance");
        CHECK((Complex(3, a) != Complex(3, b)) == far, "!= is the negation of ==");
        sym_cover("far");
        break;
    }
    case 2: {  // whole numbers
        long L = 1L << 40, a = sym_range("a", -L, L), b = sym_range("b", -L, L), c = sym_range("c", -L, L), d = sym_range("d", -L, L);
        const Complex x(a, b), y(c, d);
        bool same = (a == c) & (b == d);
        CHECK((x == y) == same && (x != y) == !same, "whole numbers are equal when both parts are");
        CHECK((x == a) == (b == 0), "a number and a real number");
        sym_cover(sym_fork(same) ? "equal" : "different");
        break;
    }
    case 3: {  // zeros
        double z = 0, n = -z;
        for (int i = 0; i < 16; i++)
        {
            Complex a(i & 1 ? z : n, i & 2 ? z : n), b(i & 4 ? z : n, i & 8 ? z : n);
            CHECK(a == b, "zeros are equal");
            CHECK(std::hash<Complex>{}(a) == std::hash<Complex>{}(b), "zeros hash equally");
        }
        sym_cover("zero");
        break;
    }
    case 4: {  // equal numbers by different computations
        int a = sym_fork(sym_range("a", -9, 9)), b = sym_fork(sym_range("b", -9, 9)), c = sym_fork(sym_range("c", -3, 3));
        const Complex x(a, b), y(c, 2);
        Complex u = x + y - y, v = x * y / y, w = -(-x), z = x.conjugate().conjugate();
        CHECK(u == x && v == x && w == x && z == x, "equal numbers by different computations");
        CHECK(std::hash<Complex>{}(u) == std::hash<Complex>{}(x) && std::hash<Complex>{}(w) == std::hash<Complex>{}(x) && std::hash<Complex>{}(z) == std::hash<Complex>{}(x), "equal numbers hash equally");
        CHECK(std::hash<Complex>{}(v) == std::hash<Complex>{}(x), "equal numbers hash equally");
        sym_cover("computed");
        break;
    }
    case 5: {  // numbers closer than the tolerance
        int k = sym_fork(sym_range("k", 1, 60));
        double d = 1;
        for (int i = 0; i < k; i++) d /= 2;
        const Complex x(1 + d), y(1), z(0, d), o;
        if (x == y) CHECK(std::hash<Complex>{}(x) == std::hash<Complex>{}(y), "equal numbers hash equally");
        if (z == o && k <= 52) CHECK(std::hash<Complex>{}(z) == std::hash<Complex>{}(o), "equal numbers hash equally");
        if (z == o && k > 52) CHECK(std::hash<Complex>{}(z) == std::hash<Complex>{}(o), "numbers closer than the tolerance hash equally");
        sym_cover("close");
        break;
    }
    case 6: {  // both parts near those of another number, in sixteenths of the tolerance
        static const int steps[] = {0, 1, -11, 12, 15, -15, 16, -16, 17, 1000};
        int p = steps[sym_fork(sym_range("p", 0, 9))], q = steps[sym_fork(sym_range("q", 0, 9))];
        const double u = std::numeric_limits<double>::epsilon() / 16;
        const bool same = std::abs(p) < 16 && std::abs(q) < 16;
        const Complex x(p * u, q * u), o, y(1.0 / 1024 + p * u, q * u - 1.0 / 512), c(1.0 / 1024, -1.0 / 512);
        CHECK((x == o) == same && (o == x) == same && (x != o) != same, "numbers are equal when either part differs by less than the tolerance");
        CHECK((y == c) == same && (c == y) == same && (y != c) != same, "numbers are equal when either part differs by less than the tolerance");
        sym_cover("both");
        break;
    }
    }
}
