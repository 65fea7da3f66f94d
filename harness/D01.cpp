// Double-ended queues: access at both ends and at any index, histories of pushes and pops.
#include "c.h"
template <typename T>
static void same(const Deque<T>& d, const std::vector<T>& v, const char* msg)
{
    holds(d, v, msg);
    int i = v.size();
    for (auto it = d.rbegin(); it != d.rend(); ++it) { CHECK(i > 0 && eq(*it, v[i - 1]), msg); i--; }
    CHECK(i == 0, msg);
}
template <typename T>
static void run(int n)
{
    std::vector<T> v = anySeq<T>("e", n);
    Deque<T> d(v.begin(), v.end());
    const Deque<T>& c = d;
    switch (MODE)
    {
    case 0: {
        same(d, v, "a deque holds the given elements in order");
        int i = anyInt("i");
        T got{};
        bool bad = throws([&] { got = c[i]; });
        CHECK(bad == (i < -n || i >= n), "an index is refused exactly when it is outside the deque");
        if (bad) { CHECK(throws([&] { d[i] = got; }), "an index is refused exactly when it is outside the deque"); same(d, v, "a refused access changes nothing"); sym_cover("refused"); break; }
        int k = sym_fork(i);
        k = k < 0 ? k + n : k;
        CHECK(eq(got, v[k]), "the element at an index");
        v[k] = any<T>("new");
        d[i] = v[k];
        same(d, v, "assignment to an element changes that element only");
        sym_cover("element");
        break;
    }
    case 1: {  // both ends
        T x{}, y{};
        bool bad = throws([&] { x = c.front(); }), bad2 = throws([&] { y = c.back(); });
        CHECK(bad == (n == 0) && bad2 == (n == 0), "the ends of the empty deque are refused");
        if (n) { CHECK(eq(x, v[0]) && eq(y, v[n - 1]), "front and back"); T e = any<T>("new"); d.front() = e; v[0] = e; same(d, v, "assignment to the front"); d.back() = x; v[n - 1] = x; same(d, v, "assignment to the back"); sym_cover("ends"); }
        else
        {
            CHECK(throws([&] { d.front() = x; }) && throws([&] { d.back() = x; }), "the ends of the empty deque are refused");
            CHECK(throws([&] { d.pop_back(); }) && throws([&] { d.pop_front(); }), "nothing can be taken from the empty deque");
            same(d, v, "refused operations change nothing");
            sym_cover("empty");
        }
        break;
    }
    case 2: {  // a history of operations
        for (int s = 0; s < sym_param("k", 3); s++)
        {
            T e = any<T>("x"), got{};
            switch (sym_fork(sym_range("op", 0, 7)))
            {
            case 0: d.push_back(e); v.push_back(e); break;
            case 1: d.push_front(e); v.insert(v.begin(), e); break;
            case 2: case 3: {
                bool front = s % 2;
                bool bad = throws([&] { got = front ? d.pop_front() : d.pop_back(); });
                CHECK(bad == v.empty(), "a pop is refused exactly when the deque is empty");
                if (bad) break;
                CHECK(eq(got, front ? v.front() : v.back()), "a pop returns the element at its end");
                v.erase(front ? v.begin() : v.end() - 1);
                break;
            }
            case 4: { std::vector<T> w = anySeq<T>("w", 2); d.extend_back(w.begin(), w.end()); v.insert(v.end(), w.begin(), w.end()); break; }
            case 5: { std::vector<T> w = anySeq<T>("w", 2); d.extend_front(w.begin(), w.end()); v.insert(v.begin(), w.begin(), w.end()); break; }
            case 6: d.reverse(); std::reverse(v.begin(), v.end()); break;
            case 7: if (s % 2) { d >>= 1; if (v.size()) std::rotate(v.begin(), v.end() - 1, v.end()); } else { d.clear(); v.clear(); } break;
            }
            same(d, v, "after every operation the deque holds the elements of its history");
        }
        sym_cover("history");
        break;
    }
    case 3: {  // many elements, pushed at both ends and popped again
        int front = sym_fork(sym_range("front", 0, n));
        Deque<T> q;
        for (int i = front; i < n; i++) q.push_back(v[i]);
        for (int i = front - 1; i >= 0; i--) q.push_front(v[i]);
        same(q, v, "pushes at both ends");
        Deque<T> copy(q);
        std::vector<T> w = v;
        while (!w.empty())
        {
            if (w.size() % 3) { CHECK(eq(q.pop_front(), w.front()), "elements come out in order"); w.erase(w.begin()); }
            else { CHECK(eq(q.pop_back(), w.back()), "elements come out in order"); w.pop_back(); }
        }
        CHECK(q.is_empty() && q.size() == 0, "all elements can be taken");
        same(copy, v, "copies are independent");
        q = std::move(copy);
        same(q, v, "moves keep the elements");
        q.push_back(q[0]); q.push_front(q[n - 1]);
        v.push_back(T(v[0])); v.insert(v.begin(), T(v[n - 1]));
        same(q, v, "pushing the deque's own elements");
        sym_cover("both ends");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
