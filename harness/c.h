// Container harness helpers: element types and plain reference sequences.
#pragma once
#include "h.h"
#include <vector>
// any element of type T; its value is determined by one int (of the range below for texts)
template <typename T> static T elem(long v);
template <> inline int elem<int>(long v) { return (int)v; }
template <> inline Str elem<Str>(long v) { return Str(std::string(1, (char)v) + "!"); }
template <> inline List<int> elem<List<int>>(long v) { return List<int>{(int)v, 7}; }
template <typename T> static T any(const char* nm, int lo = INT_MIN, int hi = INT_MAX)
{
    if constexpr (std::is_same_v<T, Str>) return elem<T>(sym_range(nm, std::max(lo, -128), std::min(hi, 127)));
    else return elem<T>(sym_range(nm, lo, hi));
}
template <typename T> static std::vector<T> anySeq(const char* nm, int n, int lo = INT_MIN, int hi = INT_MAX)
{
    std::vector<T> v;
    for (int i = 0; i < n; i++) v.push_back(fixedAt(i, n) ? elem<T>(i * (*nm == 'f' ? 2 : 3) % 120) : any<T>(nm, lo, hi));
    return v;
}
template <typename T> static bool eq(const T& a, const T& b) { return a == b; }
template <> inline bool eq(const Str& a, const Str& b)  // without the operator under test
{
    if (a.size() != b.size()) return false;
    bool r = true;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= *i == *j;
    return r;
}
template <> inline bool eq(const List<int>& a, const List<int>& b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= *i == *j;
    return r;
}
template <typename C, typename T>
static void holds(const C& c, const std::vector<T>& want, const char* msg)  // size and iteration agree with the sequence
{
    CHECK(c.size() == (int)want.size(), msg);
    CHECK(c.is_empty() == want.empty(), msg);
    size_t i = 0;
    for (const auto& e : c) { CHECK(i < want.size() && eq(e, want[i]), msg); i++; }
    CHECK(i == want.size(), msg);
    for (auto r = c.rbegin(); r != c.rend(); ++r) CHECK(i > 0 && eq(*r, want[--i]), msg);
    CHECK(i == 0, msg);
}
// any rotation of n elements, as the int itself and its remainder: q * n + r of either sign, or one of the last ones before the ends
static inline int rotation(int n, int& r)
{
    int where = sym_fork(sym_range("where", 0, 3)), k;
    if (where > 1) { int j = sym_fork(sym_range("end", 0, 2 * n)); k = where == 2 ? INT_MAX - j : INT_MIN + j; r = (int)(((long)k % n + n) % n); return k; }
    r = sym_fork(sym_range("r", 0, n - 1));
    k = sym_range("q", 0, INT_MAX / n - 1) * n + r;
    if (where == 0) return k;
    r = (n - r) % n;
    return -k;
}
