// Included before anything else by every harness (through sym.h).
//  - MODEL_BUILD (bitcode for the symbolic executor): the stream and string templates of libstdc++ are instantiated from its
//    headers, and the number conversions, which libstdc++ routes through locale facets, are replaced by model/stream.cpp;
//  - both builds: the random number source is an environment stub, an arbitrary value of the documented range per draw.
#pragma once
#include <bits/c++config.h>
#ifdef MODEL_BUILD
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <istream>
#include <ostream>
#include <random>
#include <sstream>

namespace std {
template <> template <> int uniform_int_distribution<int>::operator()(mt19937&, const param_type&);
#ifdef MODEL_BUILD
template <> void mt19937::seed(mt19937::result_type);
template <> template <> ostream& ostream::_M_insert(long);
template <> template <> ostream& ostream::_M_insert(unsigned long);
template <> template <> ostream& ostream::_M_insert(long long);
template <> template <> ostream& ostream::_M_insert(unsigned long long);
template <> template <> ostream& ostream::_M_insert(bool);
template <> template <> ostream& ostream::_M_insert(double);
template <> template <> ostream& ostream::_M_insert(long double);
template <> template <> ostream& ostream::_M_insert(const void*);
template <> istream& istream::operator>>(short&);
template <> istream& istream::operator>>(int&);
template <> template <> istream& istream::_M_extract(long&);
template <> template <> istream& istream::_M_extract(unsigned short&);
template <> template <> istream& istream::_M_extract(unsigned int&);
template <> template <> istream& istream::_M_extract(unsigned long&);
template <> template <> istream& istream::_M_extract(long long&);
template <> template <> istream& istream::_M_extract(unsigned long long&);
template <> template <> istream& istream::_M_extract(bool&);
template <> template <> istream& istream::_M_extract(float&);
template <> template <> istream& istream::_M_extract(double&);
template <> template <> istream& istream::_M_extract(long double&);
#endif
}

#ifdef MODEL_BUILD
// The greatest common divisor of symbolic numbers: libstdc++'s binary algorithm is replaced by Euclid's with the intermediate
// remainders split by value.
#include <numeric>
extern "C" { long sym_fork(long); int __symx_known(long); }
namespace std {
inline long __symx_gcd(long u, long v) {  // magnitudes below 2^63
    if (sym_fork(u < 0)) u = -u;
    if (sym_fork(v < 0)) v = -v;
    if (__symx_known(u) && !__symx_known(v)) { long t = u; u = v; v = t; }
    if (sym_fork(v == 0)) return u;
    v = sym_fork(v);
    u = sym_fork((unsigned long)u % (unsigned long)v);
    while (u) { long t = (unsigned long)v % (unsigned long)u; v = u; u = t; }
    return v;
}
namespace __detail {  // mixed types and std::lcm come here
#define SYMX_GCD(T) template <> constexpr T __gcd(T a, T b) { if (__builtin_is_constant_evaluated()) { while (b) { T t = a % b; a = b; b = t; } return a; } return (T)__symx_gcd(a, b); }
SYMX_GCD(unsigned) SYMX_GCD(unsigned long) SYMX_GCD(unsigned long long)
#undef SYMX_GCD
}
template <> constexpr int gcd(int a, int b) noexcept { if (__builtin_is_constant_evaluated()) { while (b) { int t = a % b; a = b; b = t; } return a < 0 ? -a : a; } return (int)__symx_gcd(a, b); }
template <> constexpr long gcd(long a, long b) noexcept { if (__builtin_is_constant_evaluated()) { while (b) { long t = a % b; a = b; b = t; } return a < 0 ? -a : a; } return __symx_gcd(a, b); }
template <> constexpr long long gcd(long long a, long long b) noexcept { if (__builtin_is_constant_evaluated()) { while (b) { long long t = a % b; a = b; b = t; } return a < 0 ? -a : a; } return __symx_gcd(a, b); }
}
#endif
