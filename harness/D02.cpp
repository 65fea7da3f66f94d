// Double-ended queues: rotation by any int, reversal, comparison.
#include "c.h"
template <typename T>
static void run(int n)
{
    const std::vector<T> v = anySeq<T>("e", n);
    const Deque<T> c(v.begin(), v.end());
    switch (MODE)
    {
    case 0: {
        Deque<T> x(c), y(c);
        if (!n) { int by = anyInt("by"); x <<= by; y >>= by; holds(x, v, "rotation of the empty deque"); holds(y, v, "rotation of the empty deque"); break; }
        int r, by = rotation(n, r);
        x <<= by; y >>= by;
        std::vector<T> lw, rw;
        for (int i = 0; i < n; i++) { lw.push_back(v[(i + r) % n]); rw.push_back(v[(i + n - r) % n]); }
        holds(x, lw, "<<= moves the elements to the left");
        holds(y, rw, ">>= moves the elements to the right");
        sym_cover("rotated");
        break;
    }
    case 1: {
        static const int edges[] = {INT_MIN, INT_MIN + 1, -7, -1, 0, 1, 7, INT_MAX - 1, INT_MAX};
        int by = edges[sym_fork(sym_range("edge", 0, 8))];
        Deque<T> x(c), y(c);
        x <<= by; y >>= by;
        std::vector<T> lw, rw;
        for (int i = 0; i < n; i++) { long r = (((long)by % n) + n) % n; lw.push_back(v[(i + r) % n]); rw.push_back(v[(i + n - r) % n]); }
        holds(x, lw, "<<= moves the elements to the left");
        holds(y, rw, ">>= moves the elements to the right");
        x >>= by;
        holds(x, v, "rotations cancel");
        break;
    }
    case 2: {
        Deque<T> x(c);
        x.reverse();
        holds(x, std::vector<T>(v.rbegin(), v.rend()), "reverse");
        x.reverse();
        holds(x, v, "reversing twice");
        sym_cover("reversed");
        break;
    }
    case 3: {
        int m = sym_param("m", 2);
        const std::vector<T> w = anySeq<T>("f", m);
        const Deque<T> a(w.begin(), w.end());
        const List<T> l(v), k(w);  // lists are ordered lexicographically (L05)
        bool same = n == m;
        for (int i = 0; i < n && i < m; i++) same &= eq(v[i], w[i]);
        CHECK((c == a) == same, "== is equality of the elements");
        CHECK((c != a) == !same, "!= is the negation of ==");
        CHECK((c < a) == (l < k) && (c > a) == (l > k) && (c <= a) == (l <= k) && (c >= a) == (l >= k), "the order is lexicographic");
        sym_cover("compared");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
