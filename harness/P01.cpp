// Tuples: elements, size, rest, equality.
#include "c.h"
template <typename A, typename B> static void cmp(const A& a, const B& b, bool want)
{
    CHECK((a == b) == want && (b == a) == want, "tuples are equal exactly when they have equal elements of the same types in order");
    CHECK((a != b) == !want && (b != a) == !want, "!= is the negation of ==");
}
extern "C" void harness()
{
    int a = anyInt("a"), b = anyInt("b"), c = anyInt("c"), d = anyInt("d"), x = anyInt("x"), y = anyInt("y"), z = anyInt("z"), w = anyInt("w");
    char k = sym_range("k", -128, 127), l = sym_range("l", -128, 127);
    switch (MODE)
    {
    case 0: {  // whole numbers
        const Tuple<> t0;
        const Tuple<int> t1(a), u1(x);
        const Tuple<int, int> t2(a, b), u2(x, y);
        const Tuple<int, int, int> t3(a, b, c), u3(x, y, z);
        const Tuple<int, int, int, int> t4(a, b, c, d), u4(x, y, z, w);
        CHECK(t0.size() == 0 && t1.size() == 1 && t2.size() == 2 && t3.size() == 3 && t4.size() == 4, "size");
        CHECK(t1.get<0>() == a && t2.get<0>() == a && t2.get<1>() == b && t3.get<0>() == a && t3.get<1>() == b && t3.get<2>() == c, "elements by position");
        CHECK(t4.get<0>() == a && t4.get<1>() == b && t4.get<2>() == c && t4.get<3>() == d, "elements by position");
        cmp(t0, Tuple<>(), true); cmp(t0, t1, false); cmp(t0, t3, false);
        cmp(t1, u1, a == x);
        cmp(t2, u2, (a == x) & (b == y));
        cmp(t3, u3, (a == x) & (b == y) & (c == z));
        cmp(t4, u4, (a == x) & (b == y) & (c == z) & (d == w));
        cmp(t1, t2, false); cmp(t2, u3, false); cmp(t3, t4, false); cmp(t1, u4, false);
        cmp(t4.rest(), Tuple<int, int, int>(b, c, d), true);
        cmp(t4.rest(), u3, (b == x) & (c == y) & (d == z));
        cmp(t1.rest(), t0, true);
        CHECK(t4.rest().size() == 3 && t1.rest().size() == 0, "the rest has one element less");
        sym_cover("whole");
        break;
    }
    case 1: {  // several types
        Str s = any<Str>("s"), t = any<Str>("t");
        List<int> p = any<List<int>>("p"), q = any<List<int>>("q");
        const auto m = pyincpp::make_tuple(a, k, s, p), n = pyincpp::make_tuple(x, l, t, q);
        CHECK(m.size() == 4, "size");
        CHECK(m.get<0>() == a && m.get<1>() == k && eq(m.get<2>(), s) && eq(m.get<3>(), p), "elements by position");
        cmp(m, n, (a == x) & (k == l) & eq(s, t) & eq(p, q));
        const auto o(m);
        cmp(o, m, true);
        cmp(pyincpp::make_tuple(a, k), pyincpp::make_tuple(a, (int)k), false);
        cmp(pyincpp::make_tuple(k, a), pyincpp::make_tuple((int)k, a), false);
        cmp(pyincpp::make_tuple(a, s), pyincpp::make_tuple(s, a), false);
        cmp(m.rest().rest(), n.rest().rest(), eq(s, t) & eq(p, q));
        cmp(pyincpp::make_tuple(pyincpp::make_tuple(a, b), c), pyincpp::make_tuple(pyincpp::make_tuple(x, y), z), (a == x) & (b == y) & (c == z));
        sym_cover("mixed");
        break;
    }
    case 2: {  // copies and assignment
        Tuple<int, Str> t(a, Str("ab")), u(x, Str("cd"));
        Tuple<int, Str> c1(t);
        t = u;
        cmp(t, u, true);
        CHECK(c1.get<0>() == a && t.get<0>() == x, "copies are independent");
        CHECK(show(c1.get<1>()) == "ab" && show(t.get<1>()) == "cd", "copies are independent");
        Tuple<int, Str> m(std::move(t));
        cmp(m, u, true);
        sym_cover("copied");
        break;
    }
    }
}
