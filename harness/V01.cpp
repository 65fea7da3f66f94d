// Values: copies, moves, exchanges and assignments of every type in any order, against pairs of numbers that stand for the contents.
#include "c.h"
struct Ref { int v, k; };
// the object of contents (v, k), and the change that makes (v, k + 1) of it
template <typename T> struct Of;
template <> struct Of<Int> { static Int make(Ref r) { return Int((std::string(17, '9') + char('0' + r.v + r.k)).c_str()); } static void next(Int& x, Ref) { ++x; } };
template <> struct Of<Fraction> { static Fraction make(Ref r) { return Fraction(r.v % 16 * 7 + 1 + 7 * r.k, 7); } static void next(Fraction& x, Ref) { x += 1; } };
template <> struct Of<Complex> { static Complex make(Ref r) { return Complex(r.v, r.k); } static void next(Complex& x, Ref) { x += Complex(0, 1); } };
template <> struct Of<Str> { static Str make(Ref r) { return Str(std::string(1, (char)('0' + r.v % 64)) + std::string(r.k * 7, 'x')); } static void next(Str& x, Ref) { x = x + "xxxxxxx"; } };
template <> struct Of<List<Str>> { static List<Str> make(Ref r) { List<Str> x; for (int i = 0; i < r.k; i++) x += elem<Str>(r.v); return x; } static void next(List<Str>& x, Ref r) { x += elem<Str>(r.v); } };
template <> struct Of<Deque<int>> { static Deque<int> make(Ref r) { Deque<int> x; for (int i = 0; i < r.k; i++) x.push_back(r.v + i); return x; } static void next(Deque<int>& x, Ref r) { x.push_back(r.v + r.k); } };
template <> struct Of<Set<int>> { static Set<int> make(Ref r) { Set<int> x; for (int i = 0; i < r.k; i++) x.add(r.v + i); return x; } static void next(Set<int>& x, Ref r) { x.add(r.v + r.k); } };
template <> struct Of<Dict<int, List<int>>> { using D = Dict<int, List<int>>; static D make(Ref r) { D x; for (int i = 0; i < r.k; i++) x.add(r.v + i, List<int>{r.v}); return x; } static void next(D& x, Ref r) { x.add(r.v + r.k, List<int>{r.v}); } };
template <> struct Of<Tuple<int, Str>> { using P = Tuple<int, Str>; static P make(Ref r) { return P(r.v, Str(std::string(r.k * 9, 'y'))); } static void next(P& x, Ref r) { x = make({r.v, r.k + 1}); } };
template <typename T>
static void usable(T& x, const char* msg)  // a value of its type, whichever it is
{
    T y(x);
    CHECK(y == x && !(y != x), msg);
    if constexpr (requires { x.size(); x.begin(); })
    {
        int n = 0;
        for (auto it = x.begin(); it != x.end(); ++it) n++;
        CHECK(n == (int)x.size() && x.is_empty() == (n == 0), msg);
    }
    if constexpr (std::is_same_v<T, Fraction>) { Fraction z = x + Fraction(1, 3) - Fraction(1, 3); CHECK(z == x, msg); }
    if constexpr (std::is_same_v<T, Int>) CHECK(x + Int(3) - Int(3) == x && x.digits() == (x.is_zero() ? 0 : (int)str(x).size() - (x < Int()) ), msg);
}
template <typename T>
static void run()
{
    const int lim = std::is_same_v<T, Int> ? 4 : 1000000;
    Ref r[3];
    for (int i = 0; i < 3; i++) r[i] = {sym_range("v", 0, lim), i};
    T x[3] = {Of<T>::make(r[0]), Of<T>::make(r[1]), Of<T>::make(r[2])};
    auto all = [&](const char* msg) { for (int i = 0; i < 3; i++) { const T w = Of<T>::make(r[i]); CHECK(x[i] == w && !(x[i] != w), msg); } };
    all("an object has the contents it was made of");
    for (int s = 0; s < sym_param("k", 2); s++)
    {
        int i = sym_fork(sym_range("i", 0, 2)), j = (i + 1 + (s & 1)) % 3;
        switch (sym_fork(sym_range("op", 0, 7)))
        {
        case 0: x[i] = x[j]; r[i] = r[j]; break;
        case 1: Of<T>::next(x[i], r[i]); r[i].k++; break;
        case 2: { T c(x[i]); Of<T>::next(x[i], r[i]); r[i].k++; x[j] = c; r[j] = {r[i].v, r[i].k - 1}; break; }
        case 3: { T m(std::move(x[i])); usable(x[i], "a moved-from object is a value of its type"); x[i] = x[j]; r[3 - i - j] = r[i]; x[3 - i - j] = std::move(m); usable(m, "a moved-from object is a value of its type"); r[i] = r[j]; break; }
        case 4: std::swap(x[i], x[j]); std::swap(r[i], r[j]); break;
        case 5: { T& same = x[i]; x[i] = same; break; }
        case 6: if constexpr (std::is_default_constructible_v<T>) { T c; usable(c, "an object made of nothing"); c = std::move(x[i]); x[i] = std::move(c); x[j] = Of<T>::make(r[i]); r[j] = r[i]; }
            break;
        case 7: { std::vector<T> v; for (int q = 0; q < 3; q++) v.push_back(x[q]); v.erase(v.begin()); v.insert(v.begin(), x[i]); x[0] = v[0]; r[0] = r[i]; break; }
        }
        all("after any history of copies, moves and changes every object has its own contents");
    }
    if constexpr (requires { std::hash<T>{}(x[0]); }) { T c(x[0]); CHECK(std::hash<T>{}(c) == std::hash<T>{}(x[0]), "a copy hashes as the original"); }
    sym_cover("history");
}
extern "C" void harness()
{
    switch (sym_param("t", 0))
    {
    case 0: run<Int>(); break;
    case 1: run<Fraction>(); break;
    case 2: run<Complex>(); break;
    case 3: run<Str>(); break;
    case 4: run<List<Str>>(); break;
    case 5: run<Deque<int>>(); break;
    case 6: run<Set<int>>(); break;
    case 7: run<Dict<int, List<int>>>(); break;
    case 8: run<Tuple<int, Str>>(); break;
    }
}
