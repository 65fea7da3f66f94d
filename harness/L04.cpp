// Lists: stable sorting.
#include "c.h"
struct Item
{
    int key = 0, id = 0;
    std::string tail = "";
    bool operator==(const Item&) const = default;
    auto operator<=>(const Item& o) const { return key <=> o.key; }
};
static bool down(const Item& a, const Item& b) { return a.key > b.key; }
static bool coarse(const Item& a, const Item& b) { return (a.key >> 1) < (b.key >> 1); }
static bool upInt(const int& a, const int& b) { return a < b; }
extern "C" void harness()
{
    int n = sym_param("n", 3), keys = sym_param("keys", 0), free = sym_param("free", n);  // keys 0: any int
    switch (MODE)
    {
    case 0: case 1: case 2: {
        std::vector<Item> v;
        unsigned seed = 12345;
        for (int i = 0; i < n; i++)
        {
            seed = seed * 1103515245 + 12345;
            bool sym = i % ((n + free - 1) / std::max(free, 1)) == 0;
            int k = !sym ? (int)(seed >> 16) % std::max(keys, 1) : keys ? sym_range("k", 0, keys - 1) : anyInt("k");
            v.push_back(Item{k, i, "t"});
        }
        List<Item> l(v);
        auto before = [&](const Item& a, const Item& b) { return MODE == 0 ? a.key < b.key : MODE == 1 ? a.key > b.key : (a.key >> 1) < (b.key >> 1); };
        if (MODE == 0) l.sort(); else l.sort(MODE == 1 ? down : coarse);
        CHECK(l.size() == n, "sorting keeps the number of elements");
        bool seen[64] = {};
        for (int i = 0; i < n; i++)
        {
            int id = sym_fork(l[i].id);
            CHECK(id >= 0 && id < n && !seen[id], "sorting keeps every element once");
            seen[id] = true;
            CHECK(l[i].key == v[id].key, "sorting keeps the elements");
            CHECK(l[i].tail == "t", "sorting keeps the elements");
            if (i)
            {
                CHECK(!before(l[i], l[i - 1]), "the result is in order");
                if (l[i - 1].id > l[i].id) CHECK(before(l[i - 1], l[i]), "equal elements keep their order");
            }
        }
        sym_cover("sorted");
        break;
    }
    case 3: {
        std::vector<int> v = anySeq<int>("e", n);
        List<int> l(v), m(v);
        l.sort(); m.sort(upInt);
        CHECK(l.size() == n && m.size() == n, "sorting keeps the number of elements");
        for (int i = 0; i < n; i++)
        {
            int in = 0, out = 0;
            for (int j = 0; j < n; j++) { in += v[j] == v[i]; out += l[j] == v[i]; }
            if (i) CHECK(l[i - 1] <= l[i], "the result is in order");
            CHECK(l[i] == m[i], "the default comparator is <");
            CHECK(in == out, "sorting keeps the elements");
        }
        sym_cover("sorted");
        break;
    }
    }
}
