// Sets: construction, union, intersection, differences, subset relations.
#include "c.h"
template <typename T> static bool in(const std::vector<T>& v, const T& x) { bool r = false; for (auto& y : v) r |= eq(x, y); return r; }
template <typename T> static bool before(const T& a, const T& b) { return a < b; }
template <> inline bool before(const Str& a, const Str& b) { return (u8)*a.begin() < (u8)*b.begin(); }  // the texts of elem<Str>
// c has exactly the elements of `from` for which `want` holds, each once, in ascending order
template <typename T, typename F>
static void exactly(const Set<T>& c, const std::vector<T>& from, F want, const char* msg)
{
    std::vector<T> got;
    for (auto& x : c) { if (got.size()) CHECK(before(got.back(), x), "the elements of a set are distinct and ascending"); got.push_back(x); }
    CHECK(c.size() == (int)got.size() && c.is_empty() == got.empty(), "size");
    for (auto& x : got) CHECK(in(from, x) & want(x), msg);
    for (auto& x : from) CHECK(!want(x) | in(got, x), msg);
    auto k = got.rbegin();
    for (auto it = c.rbegin(); it != c.rend(); ++it, ++k) CHECK(k != got.rend() && eq(*it, *k), "reverse iteration");
}
template <typename T>
static void run(int n, int m)
{
    const int r = sym_param("range", 0), lo = r ? 0 : INT_MIN, hi = r ? r - 1 : INT_MAX;
    std::vector<T> v = anySeq<T>("e", n, lo, hi), w = anySeq<T>("f", m, lo, hi), all = v;
    all.insert(all.end(), w.begin(), w.end());
    const Set<T> a(v.begin(), v.end()), b(w.begin(), w.end());
    auto inA = [&](const T& x) { return in(v, x); };
    auto inB = [&](const T& x) { return in(w, x); };
    switch (MODE)
    {
    case 0: {
        exactly(a, v, [](const T&) { return true; }, "a set has the given elements");
        Set<T> i(a), u(a), d(a), s(a);
        exactly(a & b, all, [&](const T& x) { return inA(x) & inB(x); }, "intersection");
        exactly(a | b, all, [&](const T&) { return true; }, "union");
        exactly(a - b, all, [&](const T& x) { return inA(x) & !inB(x); }, "difference");
        exactly(a ^ b, all, [&](const T& x) { return inA(x) != inB(x); }, "symmetric difference");
        i &= b; u |= b; d -= b; s ^= b;
        CHECK(i == (a & b) && u == (a | b) && d == (a - b) && s == (a ^ b), "the compound operators agree with the others");
        exactly(a, v, [](const T&) { return true; }, "the operands are unchanged");
        exactly(b, w, [](const T&) { return true; }, "the operands are unchanged");
        i = a; u = a; d = a; s = a;
        i &= i; u |= u; d -= d; s ^= s;
        CHECK(i == a && u == a && d.is_empty() && s.is_empty(), "a set with itself");
        sym_cover("algebra");
        break;
    }
    case 1: {
        bool sub = true, sup = true;
        for (auto& x : v) sub &= inB(x);
        for (auto& x : w) sup &= inA(x);
        sub = sym_fork(sub); sup = sym_fork(sup);
        CHECK((a <= b) == sub, "<= is the subset relation");
        CHECK((a >= b) == sup, ">= is the superset relation");
        CHECK((a == b) == (sub && sup), "== is equality of the elements");
        CHECK((a != b) == !(sub && sup), "!= is the negation of ==");
        CHECK((a < b) == (sub && !sup), "< is the proper subset relation");
        CHECK((a > b) == (sup && !sub), "> is the proper superset relation");
        CHECK(a <= a && a >= a && a == a && !(a < a) && !(a > a), "a set and itself");
        sym_cover(sub ? sup ? "equal" : "subset" : sup ? "superset" : "incomparable");
        break;
    }
    case 2: {  // laws on three sets
        std::vector<T> t = anySeq<T>("g", sym_param("k", 1));
        const Set<T> c(t.begin(), t.end());
        CHECK((a | b) == (b | a) && (a & b) == (b & a) && (a ^ b) == (b ^ a), "commutative");
        CHECK((a & (b | c)) == ((a & b) | (a & c)), "distributive");
        CHECK(((a ^ b) ^ c) == (a ^ (b ^ c)), "associative");
        CHECK((a - (b | c)) == ((a - b) & (a - c)), "de Morgan");
        CHECK((a ^ b) == ((a | b) - (a & b)), "symmetric difference by the others");
        sym_cover("laws");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("na", 2), m = sym_param("nb", 2);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n, m); break;
    case 1: run<Str>(n, m); break;
    case 2: run<List<int>>(n, m); break;
    }
}
