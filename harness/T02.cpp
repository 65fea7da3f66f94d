// Sets: histories of additions, removals and pops, against a list of members.
#include "c.h"
template <typename T> static bool before(const T& a, const T& b) { return a < b; }
template <> inline bool before(const Str& a, const Str& b) { return (u8)*a.begin() < (u8)*b.begin(); }
// the members in ascending order; the position of x, found or where it belongs
template <typename T>
static size_t place(const std::vector<T>& v, const T& x, bool& found)
{
    size_t i = 0;
    while (i < v.size() && sym_fork(before(v[i], x))) i++;
    found = i < v.size() && sym_fork(eq(v[i], x));
    return i;
}
template <typename T>
static void run(int n)
{
    Set<T> s;
    std::vector<T> v;
    bool found;
    auto put = [&](const T& x) {
        size_t i = place(v, x, found);
        CHECK(s.contains(x) == found, "contains");
        auto it = s.find(x);
        CHECK((it != s.end()) == found, "find");
        if (found) CHECK(eq(*it, x), "find");
        CHECK(s.add(x) == !found, "add tells whether the element is new");
        if (!found) v.insert(v.begin() + i, x);
    };
    for (int i = 0; i < n; i++) put(fixedAt(i, n) ? elem<T>(i * 3 % 97) : any<T>("e"));
    holds(s, v, "a set has the added elements, ascending");
    for (int k = 0; k < sym_param("k", 2); k++)
    {
        switch (sym_fork(sym_range("op", 0, 5)))
        {
        case 0: put(any<T>("x")); break;
        case 1: {
            T x = any<T>("x");
            size_t i = place(v, x, found);
            CHECK(s.remove(x) == found, "remove tells whether the element was there");
            if (found) v.erase(v.begin() + i);
            CHECK(!s.contains(x), "a removed element is gone");
            break;
        }
        case 2: {
            T got{};
            bool bad = throws([&] { got = s.pop(); });
            CHECK(bad == v.empty(), "pop is refused exactly when the set is empty");
            if (!bad) { place(v, got, found); CHECK(found, "pop returns an element of the set"); v.erase(v.begin() + place(v, got, found)); }
            break;
        }
        case 3: {
            T lo{}, hi{};
            bool bad = throws([&] { lo = s.min(); }), bad2 = throws([&] { hi = s.max(); });
            CHECK(bad == v.empty() && bad2 == v.empty(), "min and max are refused exactly when the set is empty");
            if (!bad) CHECK(eq(lo, v.front()) && eq(hi, v.back()), "min and max");
            Set<T> copy(s);
            s.clear();
            CHECK(s.is_empty(), "clear removes every element");
            holds(copy, v, "copies are independent");
            s = std::move(copy);
            break;
        }
        case 5: {  // the element given is the one in the set
            if (v.empty()) break;
            int i = sym_fork(sym_range("own", 0, v.size() - 1));
            auto it = s.begin();
            for (int j = 0; j < i; j++) ++it;
            CHECK(!s.add(*it), "add tells whether the element is new");
            CHECK(s.remove(*it), "remove tells whether the element was there");
            v.erase(v.begin() + i);
            break;
        }
        case 4: {
            std::vector<T> w = anySeq<T>("w", 2);
            s.extend(w.begin(), w.end());
            for (auto& x : w) { size_t i = place(v, x, found); if (!found) v.insert(v.begin() + i, x); }
            break;
        }
        }
        holds(s, v, "after every operation the set has the elements of its history");
    }
    sym_cover("history");
}
extern "C" void harness()
{
    int n = sym_param("n", 2);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
