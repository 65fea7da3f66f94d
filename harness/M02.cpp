// Dictionaries: lookup with defaults, keys, values, items, smallest and largest key, equality.
#include "c.h"
extern "C" void harness()
{
    int n = sym_param("n", 2), m = sym_param("m", 2);
    std::vector<std::pair<const int, int>> w;
    std::vector<int> k, v;
    for (int i = 0; i < n; i++)
    {
        int x = fixedAt(i, n) ? i * 3 : anyInt("k"), y = fixedAt(i, n) ? i % 4 : anyInt("v");
        w.push_back({x, y});
        bool dup = false;
        for (int z : k) dup |= z == x;
        if (!sym_fork(dup)) { k.push_back(x); v.push_back(y); }
    }
    Dict<int, int> d(w.begin(), w.end());
    const Dict<int, int>& c = d;
    int size = k.size();
    CHECK(d.size() == size, "the keys of a dictionary are distinct");
    switch (MODE)
    {
    case 0: {
        int x = anyInt("x"), y = anyInt("y"), at = -1;
        for (int i = 0; i < size; i++) if (sym_fork(k[i] == x)) at = i;
        int got = 0;
        bool bad = throws([&] { got = c[x]; }), bad2 = throws([&] { got = d[x]; });
        CHECK(bad == (at < 0) && bad2 == bad, "access is refused exactly when the key is missing");
        CHECK(c.contains(x) == (at >= 0), "contains");
        CHECK((c.find(x) != c.end()) == (at >= 0), "find");
        CHECK(c.get(x, y) == (at < 0 ? y : v[at]), "get gives the value, or the default when the key is missing");
        CHECK(c.size() == size, "looking up a key adds nothing");
        if (at >= 0) { CHECK(got == v[at], "the value of a key"); CHECK(c.find(x)->first == x && c.find(x)->second == v[at], "find"); d[x] = y; CHECK(c[x] == y && c.get(x, 0) == y && c.size() == size, "assignment changes the value of the key"); }
        for (int i = 0; i < size; i++) if (i != at) CHECK(c[k[i]] == v[i], "the values of the other keys");
        sym_cover(at < 0 ? "missing" : "found");
        break;
    }
    case 1: {
        auto keys = c.keys();
        auto values = c.values();
        auto items = c.items();
        CHECK(keys.size() == size && items.size() == size, "as many keys and items as pairs");
        int i = 0;
        for (int x : keys) { bool r = false; for (int z : k) r |= z == x; CHECK(r, "the keys"); }
        for (int x : k) CHECK(keys.contains(x), "the keys");
        for (int x : values) { bool r = false; for (int z : v) r |= z == x; CHECK(r, "the values"); }
        for (int x : v) CHECK(values.contains(x), "the values");
        for (auto& p : items) { bool r = false; for (int j = 0; j < size; j++) r |= (k[j] == p.first) & (v[j] == p.second); CHECK(r, "the items"); }
        int lo = 0, hi = 0;
        bool bad = throws([&] { lo = c.min(); }), bad2 = throws([&] { hi = c.max(); });
        CHECK(bad == (size == 0) && bad2 == bad, "min and max are refused exactly when the dictionary is empty");
        bool isLo = false, isHi = false;
        for (int x : k) { CHECK(lo <= x && x <= hi, "min and max"); isLo |= x == lo; isHi |= x == hi; }
        if (size) CHECK(isLo && isHi, "min and max are keys");
        CHECK(c.size() == size, "the views change nothing");
        sym_cover("views");
        break;
    }
    case 2: {
        Dict<int, int> o;
        std::vector<int> a, b;
        for (int i = 0; i < m; i++)
        {
            int x = anyInt("k2"), y = anyInt("v2");
            o.add(x, y);
            bool dup = false;
            for (int z : a) dup |= z == x;
            if (!sym_fork(dup)) { a.push_back(x); b.push_back(y); }
        }
        bool want = a.size() == k.size();
        for (size_t i = 0; i < a.size(); i++) { bool r = false; for (int j = 0; j < size; j++) r |= (k[j] == a[i]) & (v[j] == b[i]); want &= r; }
        CHECK((d == o) == want, "equality is equality of the pairs");
        CHECK((d != o) == !want, "!= is the negation of ==");
        Dict<int, int> e(d);
        CHECK(e == d, "a copy is equal");
        sym_cover(sym_fork(want) ? "equal" : "different");
        break;
    }
    }
}
