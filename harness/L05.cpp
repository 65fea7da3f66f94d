// Lists compare lexicographically and are values; nested lists too.
#include "c.h"
template <typename T> static int cmp3(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
template <> inline int cmp3(const Str& a, const Str& b) { std::string x = show(a), y = show(b); for (size_t i = 0; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) return (u8)x[i] < (u8)y[i] ? -1 : 1; return x.size() < y.size() ? -1 : x.size() > y.size(); }
template <> inline int cmp3(const List<int>& a, const List<int>& b) { auto i = a.begin(); auto j = b.begin(); for (; i != a.end() && j != b.end(); ++i, ++j) if (*i != *j) return *i < *j ? -1 : 1; return i != a.end() ? 1 : j != b.end() ? -1 : 0; }
template <typename T>
static void run(int n, int m)
{
    std::vector<T> v = anySeq<T>("e", n), w = anySeq<T>("f", m);
    const List<T> a(v), b(w);
    int want = 0;
    for (int i = 0; !want && i < n && i < m; i++) want = cmp3(v[i], w[i]);
    if (!want) want = n < m ? -1 : n > m;
    want = sym_fork(want);
    CHECK((a == b) == (want == 0), "== is equality of the elements");
    CHECK((a != b) == (want != 0), "!= is the negation of ==");
    CHECK((a < b) == (want < 0), "< is lexicographic");
    CHECK((a > b) == (want > 0), "> is lexicographic");
    CHECK((a <= b) == (want <= 0), "<= is lexicographic");
    CHECK((a >= b) == (want >= 0), ">= is lexicographic");
    List<T> x(a), y = b;
    CHECK(x == a && y == b, "copies are equal");
    x = std::move(y);
    CHECK(x == b && (x == a) == (want == 0), "moves keep the value");
    x = x;
    CHECK(x == b, "self-assignment");
    sym_cover(want == 0 ? "equal" : "different");
}
extern "C" void harness()
{
    int n = sym_param("na", 2), m = sym_param("nb", 2);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n, m); break;
    case 1: run<Str>(n, m); break;
    case 2: run<List<int>>(n, m); break;
    }
}
