// Lists: element access, insertion and removal at any position; refused operations change nothing.
#include "c.h"
template <typename T>
static void run(int n)
{
    std::vector<T> v = anySeq<T>("e", n);
    List<T> l(v);
    const List<T>& c = l;
    switch (MODE)
    {
    case 0: {
        holds(l, v, "a list holds the given elements in order");
        int i = anyInt("i");
        T got{};
        bool bad = throws([&] { got = c[i]; });
        CHECK(bad == (i < -n || i >= n), "an index is refused exactly when it is outside the list");
        if (bad) { CHECK(throws([&] { l[i] = got; }), "an index is refused exactly when it is outside the list"); holds(l, v, "a refused access changes nothing"); sym_cover("refused"); break; }
        int k = sym_fork(i);
        k = k < 0 ? k + n : k;
        CHECK(eq(got, v[k]), "the element at an index");
        v[k] = any<T>("new");
        l[i] = v[k];
        holds(l, v, "assignment to an element changes that element only");
        for (auto it = c.rbegin(); it != c.rend(); ++it) { CHECK(eq(*it, v.back()), "reverse iteration"); v.pop_back(); }
        CHECK(v.empty(), "reverse iteration");
        sym_cover("element");
        break;
    }
    case 1: {
        int i = anyInt("i");
        T e = any<T>("new");
        bool bad = throws([&] { l.insert(i, e); });
        CHECK(bad == (i < -n || i > n), "insertion is refused exactly when the position is outside the list");
        if (bad) { holds(l, v, "a refused insertion changes nothing"); sym_cover("refused insertion"); break; }
        int k = sym_fork(i);
        v.insert(v.begin() + (k < 0 ? k + n : k), e);
        holds(l, v, "insertion puts the element at the position and moves the rest");
        l.insert(0, l[n]);  // an element of the list itself
        v.insert(v.begin(), T(v[n]));
        holds(l, v, "insertion of one of the list's own elements");
        sym_cover("inserted");
        break;
    }
    case 2: {
        int i = anyInt("i");
        T got{};
        bool bad = throws([&] { got = l.remove(i); });
        CHECK(bad == (i < -n || i >= n), "removal is refused exactly when the position is outside the list");
        if (bad) { holds(l, v, "a refused removal changes nothing"); sym_cover("refused removal"); break; }
        int k = sym_fork(i);
        k = k < 0 ? k + n : k;
        CHECK(eq(got, v[k]), "removal returns the element");
        v.erase(v.begin() + k);
        holds(l, v, "removal deletes that element only");
        sym_cover("removed");
        break;
    }
    case 3: {
        int a = anyInt("start"), b = anyInt("stop");
        bool bad = throws([&] { l.erase(a, b); });
        CHECK(bad == (a < 0 || a > n || b < a || b > n), "erasure is refused exactly when the range is not a range of the list");
        if (bad) { holds(l, v, "a refused erasure changes nothing"); sym_cover("refused erasure"); break; }
        int x = sym_fork(a), y = sym_fork(b);
        v.erase(v.begin() + x, v.begin() + y);
        holds(l, v, "erasure deletes the range only");
        sym_cover("erased");
        break;
    }
    case 4: {
        int m = sym_param("m", 2);
        std::vector<T> w = anySeq<T>("f", m), all = v;
        const List<T> o(w);
        const T e = any<T>("new");
        all.push_back(e);
        holds(c + e, all, "list + element");
        all = v;
        all.insert(all.end(), w.begin(), w.end());
        holds(c + o, all, "list + list");
        holds(l, v, "concatenation leaves its operands unchanged");
        holds(o, w, "concatenation leaves its operands unchanged");
        List<T> x(l), y(w.begin(), w.end());
        x += o;
        holds(x, all, "list += list");
        x = l;
        x.extend(w.begin(), w.end());
        holds(x, all, "extend appends the range");
        x += e;
        all.push_back(e);
        holds(x, all, "list += element");
        x += x[0];
        all.push_back(T(all[0]));
        holds(x, all, "list += one of its elements");
        x += x;
        { std::vector<T> t = all; all.insert(all.end(), t.begin(), t.end()); }
        holds(x, all, "list += itself");
        holds(y + y, [&] { std::vector<T> t = w; t.insert(t.end(), w.begin(), w.end()); return t; }(), "list + itself");
        x.clear();
        holds(x, std::vector<T>(), "clear removes every element");
        holds(l, v, "copies are independent");
        x = std::move(y);
        holds(x, w, "a moved list keeps its elements");
        sym_cover("concatenated");
        break;
    }
    case 5: {  // a history of operations
        List<T> x(v);
        for (int s = 0; s < sym_param("k", 2); s++)
        {
            int size = v.size();
            int op = sym_fork(sym_range("op", 0, 5));
            T e = any<T>("x");
            if (op < 2)
            {
                int i = sym_fork(sym_range("at", -size - 1, size + 1));
                if (op == 0)
                {
                    bool bad = throws([&] { x.insert(i, e); });
                    CHECK(bad == (i < -size || i > size), "insertion in a history");
                    if (!bad) v.insert(v.begin() + (i < 0 ? i + size : i), e);
                }
                else
                {
                    bool bad = throws([&] { e = x.remove(i); });
                    CHECK(bad == (i < -size || i >= size), "removal in a history");
                    if (!bad) { i = i < 0 ? i + size : i; CHECK(eq(e, v[i]), "removal in a history"); v.erase(v.begin() + i); }
                }
            }
            else if (op == 2) { x += e; v.push_back(e); }
            else if (op == 3) { x.reverse(); std::reverse(v.begin(), v.end()); }
            else if (op == 4) { x <<= 1; if (size) std::rotate(v.begin(), v.begin() + 1, v.end()); }
            else { x += x; std::vector<T> t = v; v.insert(v.end(), t.begin(), t.end()); }
            holds(x, v, "after every operation the list holds the elements of its history");
        }
        sym_cover("history");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
