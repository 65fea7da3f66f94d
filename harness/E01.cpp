// A refused operation changes nothing: the operands, and the objects around them, are afterwards what they were before.
#include "c.h"
#include <map>
#define REFUSED(op) CHECK(throws([&] { op; }), "refused: " #op)
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: {  // integers
        Int a = lit("a", sym_param("na", 2), sgn()), zero;
        const long x = val(a);
        auto same = [&] { CHECK(val(a) == x && zero.is_zero() && str(zero) == "0", "a refused operation leaves integers alone"); };
        switch (sym_fork(sym_range("op", 0, 9)))
        {
        case 0: REFUSED(a /= zero); break;
        case 1: REFUSED(a %= zero); break;
        case 2: REFUSED(a = a / zero); break;
        case 3: REFUSED(a = Int("12x")); break;
        case 4: REFUSED(a = Int(a / Int(0))); break;
        case 5: REFUSED(zero /= zero); break;
        case 6: if (x < 0) { REFUSED(a.factorial()); REFUSED(a = Int::sqrt(a)); } break;
        case 7: if (x < 0) REFUSED(zero = Int::pow(zero, a)); break;
        case 8: { std::istringstream is("1-2 7"); Int b(5); REFUSED(is >> a >> b); CHECK(b == 5, "what comes after a refusal is not done"); break; }
        case 9: if (x <= 0) REFUSED(a = Int::log(a, Int(7))); else { REFUSED(a = Int::log(a, Int(1))); REFUSED(a = Int::log(a, -a)); } break;
        }
        same();
        a += 1;
        CHECK(val(a) == x + 1, "and they can be used afterwards");
        sym_cover("integer");
        break;
    }
    case 1: {  // fractions: by zero, and results out of range
        int n = anyInt("n");
        Fraction a(n), z, big(INT_MAX), tiny(1, INT_MAX), other(1, 2);
        auto is = [&](const Fraction& f, long p, long q) { CHECK(f.numerator() == p && f.denominator() == q, "a refused operation leaves fractions alone"); };
        switch (sym_fork(sym_range("op", 0, 8)))
        {
        case 0: REFUSED(a /= z); break;
        case 1: REFUSED(a %= z); break;
        case 2: REFUSED(big += big); break;
        case 3: REFUSED(++big); break;
        case 4: REFUSED(tiny *= other); break;
        case 5: if (n < -1) REFUSED(a -= big); break;  // -1 - INT_MAX is INT_MIN, which fits
        case 6: REFUSED(a = Fraction(n, 0)); break;
        case 7: { std::istringstream s("1/0 1/3"); Fraction b(5, 7); REFUSED(s >> a >> b); is(b, 5, 7); break; }
        case 8: { std::istringstream s("x"); REFUSED(s >> a); break; }
        }
        is(a, n, 1); is(z, 0, 1); is(big, INT_MAX, 1); is(tiny, 1, INT_MAX); is(other, 1, 2);
        sym_cover("fraction");
        break;
    }
    case 2: {  // lists and deques: positions out of range
        int n = sym_param("n", 2), i = anyInt("i"), j = anyInt("j");
        const std::vector<Str> v = anySeq<Str>("e", n);
        List<Str> c(v);
        Deque<Str> d(v.begin(), v.end());
        Str s("new"), got("old");
        switch (sym_fork(sym_range("op", 0, 9)))
        {
        case 0: sym_assume(i < -n || i >= n); REFUSED(c[i] = s); REFUSED(got = c[i]); break;
        case 1: sym_assume(i < -n || i > n); REFUSED(c.insert(i, s)); break;
        case 2: sym_assume(i < -n || i >= n); REFUSED(got = c.remove(i)); break;
        case 3: sym_assume(i < 0 || j > n || i > j); REFUSED(c.erase(i, j)); break;
        case 4: sym_assume(i < -n || i >= n || j < -n - 1 || j > n); REFUSED(c = c.slice(i, j)); REFUSED(c = c.slice(0, 0, 0)); break;
        case 5: sym_assume(i < 0 || (n && i > INT_MAX / n)); REFUSED(c *= i); REFUSED(c = c * i); break;
        case 6: sym_assume(i < -n || i >= n); REFUSED(d[i] = s); REFUSED(got = d[i]); break;
        case 7: { List<Str> e; REFUSED(got = e[i]); REFUSED(e.remove(i)); CHECK(e.is_empty(), "an empty list stays empty"); sym_assume(i); REFUSED(e.insert(i, s)); CHECK(e.is_empty(), "an empty list stays empty"); break; }
        case 8: { Deque<Str> e; REFUSED(got = e.pop_back()); REFUSED(got = e.pop_front()); REFUSED(got = e.front()); REFUSED(got = e.back()); e.push_back(s); CHECK(e.size() == 1 && eq(e.front(), s), "an empty deque can be filled"); break; }
        case 9: { List<List<Str>> w{c, c}; REFUSED(w[1][i < -n || i >= n ? i : n] = s); holds(w[0], v, "a refused operation leaves the lists inside a list alone"); holds(w[1], v, "a refused operation leaves the lists inside a list alone"); break; }
        }
        holds(c, v, "a refused operation leaves a list alone");
        holds(d, v, "a refused operation leaves a deque alone");
        CHECK(show(s) == "new" && show(got) == "old", "a refused operation leaves its arguments alone");
        c += s; d.push_back(s);
        CHECK(c.size() == n + 1 && d.size() == n + 1, "and they can be used afterwards");
        sym_cover("sequence");
        break;
    }
    case 3: {  // sets and dictionaries
        int k = anyInt("k"), p = anyInt("p"), q = anyInt("q");
        sym_assume(p < q && k != p && k != q);
        Dict<int, Str> d{{p, Str("one")}, {q, Str("two")}}, e;
        const Dict<int, Str>& cd = d;
        Set<int> s;
        Str got("old");
        switch (sym_fork(sym_range("op", 0, 5)))
        {
        case 0: REFUSED(d[k] = got); REFUSED(got = cd[k]); break;
        case 1: REFUSED(e[k] = got); break;
        case 2: REFUSED(e.pop()); REFUSED(p = e.min()); REFUSED(p = e.max()); break;
        case 3: REFUSED(k = s.pop()); REFUSED(k = s.min()); REFUSED(k = s.max()); break;
        case 4: { Dict<int, List<int>> w{{1, {2}}}; REFUSED(w[1][1] = 7); REFUSED(w[2] += 7); CHECK(w.size() == 1 && w[1].size() == 1 && w[1][0] == 2, "a refused operation leaves what is inside a dictionary alone"); break; }
        case 5: REFUSED(d[p] = cd[k]); REFUSED(d.add(k, cd[k])); break;
        }
        CHECK(d.size() == 2 && d.contains(p) && d.contains(q) && !d.contains(k), "a refused operation leaves a dictionary alone");
        CHECK(show(d[p]) == "one" && show(d[q]) == "two" && e.is_empty() && s.is_empty() && show(got) == "old", "a refused operation leaves a dictionary alone");
        int m = 0;
        for (auto& x : d) { CHECK(x.first == (m ? q : p), "a refused operation leaves a dictionary alone"); m++; }
        e.add(k, got); s.add(k);
        CHECK(e.size() == 1 && s.size() == 1, "and they can be used afterwards");
        sym_cover("associative");
        break;
    }
    case 4: {  // strings and complex numbers
        int n = sym_param("n", 3), i = anyInt("i"), j = anyInt("j");
        const std::string t = text("t", n);
        Str s(t), r("old");
        Complex c(i, j), z, o(7, 7);
        switch (sym_fork(sym_range("op", 0, 7)))
        {
        case 0: sym_assume(i < -n || i >= n); REFUSED(r = Str(std::string(1, s[i]))); break;
        case 1: sym_assume(i < -n || i >= n || j < -n - 1 || j > n); REFUSED(r = s.slice(i, j)); REFUSED(s = s.slice(0, 0, 0)); break;
        case 2: sym_assume(i < 0 || (n && i > INT_MAX / n)); REFUSED(r = s * i); break;
        case 3: sym_assume(i < 0 || j > n || i > j); REFUSED(s = s.erase(i, j)); break;
        case 4: { Str w("1_2"); Int g(9); REFUSED(g = w.to_integer()); REFUSED(i = w.to_decimal()); REFUSED(g = Str("z").to_integer(35)); CHECK(g == 9, "a refused operation leaves its arguments alone"); CHECK(show(w) == "1_2", "a refused operation leaves a string alone"); break; }
        case 5: REFUSED(c /= z); break;
        case 6: { std::istringstream is("1+2k 3"); REFUSED(is >> c >> o); break; }
        case 7: { std::istringstream is("j"); REFUSED(is >> c); break; }
        }
        sameText(show(s), t, "a refused operation leaves a string alone");
        CHECK(show(r) == "old" && c.real() == (double)i && c.imag() == (double)j && z.real() == 0 && z.imag() == 0 && o.real() == 7 && o.imag() == 7, "a refused operation leaves its arguments alone");
        sym_cover("text and complex");
        break;
    }
    }
}
