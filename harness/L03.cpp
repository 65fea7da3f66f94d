// Lists: searching, counting, removing by value, uniquify, filter and map.
#include "c.h"
template <typename T>
static void run(int n)
{
    std::vector<T> v = anySeq<T>("e", n);
    const T e = any<T>("x");
    List<T> l(v);
    const List<T>& c = l;
    std::vector<char> is;  // which elements equal e
    for (auto& x : v) is.push_back(sym_fork(eq(x, e)));
    switch (MODE)
    {
    case 0: {
        int first = 0, count = 0;
        while (first < n && !is[first]) first++;
        for (char x : is) count += x;
        CHECK(c.find(e) - c.begin() == first, "find gives the first occurrence, or the end");
        CHECK(c.index(e) == (first < n ? first : -1), "index of the first occurrence");
        CHECK(c.contains(e) == (first < n), "contains");
        CHECK(c.count(e) == count, "count");
        int a = anyInt("start"), b = anyInt("stop");
        int got = c.index(e, a, b);
        CHECK(c.contains(e, a, b) == (got != -1), "contains in a range");
        if (a < 0 || a > n || a > b) { CHECK(got == -1, "there is nothing in what is no range of the list"); sym_cover("no range"); }
        else
        {
            int x = sym_fork(a), y = b > n ? n : sym_fork(b);
            int k = x;
            while (k < y && !is[k]) k++;
            CHECK(got == (k < y ? k : -1), "index is the first occurrence in the range");
            sym_cover(k < y ? "found" : "absent");
        }
        holds(c, v, "searching changes nothing");
        break;
    }
    case 1: {
        std::vector<T> one, none;
        bool hit = false;
        for (int i = 0; i < n; i++) { if (!is[i]) none.push_back(v[i]); if (!is[i] || hit) one.push_back(v[i]); hit |= is[i]; }
        holds(c - e, one, "list - element removes the first occurrence");
        holds(c / e, none, "list / element removes every occurrence");
        holds(c, v, "removal by value leaves its operand unchanged");
        List<T> x(l), y(l);
        x -= e; y /= e;
        holds(x, one, "-= removes the first occurrence");
        holds(y, none, "/= removes every occurrence");
        sym_cover(hit ? "removed" : "nothing to remove");
        break;
    }
    case 2: {  // by one of the list's own elements
        for (int k = 0; k < n; k++)
        {
            List<T> x(v), y(v);
            x -= x[k]; y /= y[k];
            std::vector<T> one, none;
            bool hit = false;
            for (int i = 0; i < n; i++) { bool same = sym_fork(eq(v[i], v[k])); if (!same) none.push_back(v[i]); if (!same || hit) one.push_back(v[i]); hit |= same; }
            holds(x, one, "-= with an element of the list");
            holds(y, none, "/= with an element of the list");
        }
        break;
    }
    case 3: {
        std::vector<T> want;
        for (int i = 0; i < n; i++) { bool seen = false; for (auto& w : want) seen |= eq(w, v[i]); if (!sym_fork(seen)) want.push_back(v[i]); }
        l.uniquify();
        holds(l, want, "uniquify keeps the first of equal elements, in order");
        l.uniquify();
        holds(l, want, "uniquify twice");
        sym_cover("unique");
        break;
    }
    case 4: {
        std::vector<T> want, mapped;
        for (int i = 0; i < n; i++) { if (is[i]) want.push_back(v[i]); mapped.push_back(is[i] ? elem<T>(3) : v[i]); }
        List<T> x(l), y(l);
        int calls = 0;
        x.filter([&](const T& z) { calls++; return eq(z, e); });
        CHECK(calls == n, "filter asks once for each element");
        holds(x, want, "filter keeps the elements that satisfy the predicate, in order");
        calls = 0;
        y.map([&](T& z) { CHECK(eq(z, v[calls]), "map visits the elements in order"); calls++; if (eq(z, e)) z = elem<T>(3); });
        CHECK(calls == n, "map visits each element once");
        holds(y, mapped, "map applies the action to each element");
        holds(l, v, "copies are independent");
        sym_cover("filtered");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
