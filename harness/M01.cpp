// Dictionaries: histories of additions, assignments and removals, against a list of pairs.
#include "c.h"
template <typename T> static bool before(const T& a, const T& b) { return a < b; }
template <> inline bool before(const Str& a, const Str& b) { return (u8)*a.begin() < (u8)*b.begin(); }
template <typename K, typename V>
struct Ref
{
    std::vector<K> k;
    std::vector<V> v;
    size_t place(const K& x, bool& found) const
    {
        size_t i = 0;
        while (i < k.size() && sym_fork(before(k[i], x))) i++;
        found = i < k.size() && sym_fork(eq(k[i], x));
        return i;
    }
    void put(const K& x, const V& y) { bool f; size_t i = place(x, f); if (!f) { k.insert(k.begin() + i, x); v.insert(v.begin() + i, y); } }
    void erase(size_t i) { k.erase(k.begin() + i); v.erase(v.begin() + i); }
};
template <typename K, typename V>
static void same(const Dict<K, V>& d, const Ref<K, V>& r, const char* msg)
{
    CHECK(d.size() == (int)r.k.size() && d.is_empty() == r.k.empty(), msg);
    size_t i = 0;
    for (const auto& p : d) { CHECK(i < r.k.size() && eq(p.first, r.k[i]) & eq(p.second, r.v[i]), msg); i++; }
    CHECK(i == r.k.size(), msg);
    for (auto it = d.rbegin(); it != d.rend(); ++it) { i--; CHECK(eq(it->first, r.k[i]) & eq(it->second, r.v[i]), msg); }
}
template <typename K, typename V>
static void run(int n)
{
    Dict<K, V> d;
    Ref<K, V> r;
    bool found;
    auto put = [&](const K& x, const V& y) {
        r.place(x, found);
        CHECK(d.contains(x) == found, "contains");
        CHECK(d.add(x, y) == !found, "add tells whether the key is new");
        r.put(x, y);
    };
    for (int i = 0; i < n; i++) put(fixedAt(i, n) ? elem<K>(i * 3 % 97) : any<K>("k"), any<V>("v"));
    same(d, r, "a dictionary has the added pairs, and keeps the first value of a key");
    for (int s = 0; s < sym_param("k", 2); s++)
    {
        K x = any<K>("x");
        V y = any<V>("y"), got{};
        switch (sym_fork(sym_range("op", 0, 6)))
        {
        case 0: put(x, y); break;
        case 1: {
            size_t i = r.place(x, found);
            CHECK(d.remove(x) == found, "remove tells whether the key was there");
            if (found) r.erase(i);
            CHECK(!d.contains(x), "a removed key is gone");
            break;
        }
        case 2: {
            size_t i = r.place(x, found);
            bool bad = throws([&] { d[x] = y; });
            CHECK(bad == !found, "access is refused exactly when the key is missing");
            if (found) r.v[i] = y;
            break;
        }
        case 3: {
            K key{};
            bool bad = throws([&] { auto p = d.pop(); key = p.first; got = p.second; });
            CHECK(bad == r.k.empty(), "pop is refused exactly when the dictionary is empty");
            if (bad) break;
            size_t i = r.place(key, found);
            CHECK(found && eq(got, r.v[i]), "pop returns a pair of the dictionary");
            r.erase(i);
            break;
        }
        case 4: {
            std::vector<std::pair<const K, V>> w{{x, y}, {any<K>("x2"), any<V>("y2")}};
            d.extend(w.begin(), w.end());
            for (auto& p : w) r.put(p.first, p.second);
            break;
        }
        case 6: {  // the key given is the one in the dictionary
            if (r.k.empty()) break;
            int i = sym_fork(sym_range("own", 0, r.k.size() - 1));
            auto it = d.begin();
            for (int j = 0; j < i; j++) ++it;
            CHECK(!d.add(it->first, y), "add tells whether the key is new");
            CHECK(d.remove(it->first), "remove tells whether the key was there");
            r.erase(i);
            break;
        }
        case 5: {
            Dict<K, V> copy(d);
            d.clear();
            CHECK(d.is_empty() && !d.contains(x), "clear removes every pair");
            same(copy, r, "copies are independent");
            d = std::move(copy);
            break;
        }
        }
        same(d, r, "after every operation the dictionary has the pairs of its history");
    }
    sym_cover("history");
}
extern "C" void harness()
{
    int n = sym_param("n", 2);
    switch (sym_param("t", 0))
    {
    case 0: run<int, int>(n); break;
    case 1: run<Str, List<int>>(n); break;
    }
}
