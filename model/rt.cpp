// Definitions of the library functions that libstdc++ and libc keep out of line, so that the harnesses can be executed
// from IR alone.  Compiled to bitcode and linked with every harness (never with the native replay).
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <functional>
#include <string>
#include <list>
#include <unordered_map>
#include <charconv>
#include <cmath>
#include <typeinfo>

extern "C" { double __symx_strtod(const char*, char**); long sym_fork(long); }  // on concrete characters
#pragma clang attribute push(__attribute__((no_builtin)), apply_to = function)
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { auto x = (const unsigned char*)a; auto y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { auto x = (const unsigned char*)a; auto y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
void* memchr(const void* a, int c, size_t n) { auto x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) break; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
double strtod(const char* s, char** end)
{
    // exact where the C library is exact: at most 15 digits times or divided by a power of ten up to 22
    static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false, dot = false, any = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    unsigned long m = 0; int nd = 0, sc = 0;
    for (;; p++) {
        if (*p >= '0' && *p <= '9') { any = true; if (nd || *p != '0') nd++; if (nd > 15) return __symx_strtod(s, end); m = m * 10 + (*p - '0'); if (dot) sc--; }
        else if (*p == '.' && !dot) dot = true;
        else break;
    }
    if (!any || ((*p == 'x' || *p == 'X'))) return __symx_strtod(s, end);
    const bool zero = sym_fork(m == 0);
    if (*p == 'e' || *p == 'E') {
        const char* q = p + 1; bool en = false; long e = 0; int k = 0;
        if (*q == '+' || *q == '-') en = *q++ == '-';
        for (; *q >= '0' && *q <= '9'; q++, k++) { if (e < 100000) e = e * 10 + (*q - '0'); }
        if (k) { p = q; if (zero) e = 0; else if (e > 700) e = 700; e = sym_fork(e); sc += en ? -e : e; }
    }
    if (zero) { if (end) *end = (char*)p; return neg ? -0.0 : 0.0; }
    if (sc > 400) { if (end) *end = (char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
    if (sc < -400) { if (end) *end = (char*)p; return neg ? -0.0 : 0.0; }
    if (sc > 22 || sc < -22) return __symx_strtod(s, end);
    double v = (double)(long)m;
    if (sc > 0) v *= p10[sc]; else if (sc < 0) v /= p10[-sc];
    if (end) *end = (char*)p;
    return neg ? -v : v;
}
int abs(int x) { return x < 0 ? -x : x; }
double ldexp(double x, int n) { for (; n > 0; n--) x *= 2; for (; n < 0; n++) x /= 2; return x; }
double modf(double x, double* i) { *i = __builtin_isinf(x) ? x : __builtin_trunc(x); return __builtin_isinf(x) ? __builtin_copysign(0.0, x) : __builtin_copysign(x - *i, x); }
long labs(long x) { return x < 0 ? -x : x; }
long lround(double x) { return (long)__builtin_round(x); }
long long llround(double x) { return (long long)__builtin_round(x); }
long lrint(double x) { return (long)__builtin_rint(x); }
float strtof(const char* s, char** end) { return (float)strtod(s, end); }
double cabs(double _Complex z) { return ::hypot(__real__ z, __imag__ z); }
double carg(double _Complex z) { return atan2(__imag__ z, __real__ z); }
static double _Complex cmk(double a, double b) { double _Complex r; __real__ r = a; __imag__ r = b; return r; }
double _Complex cexp(double _Complex z) { double e = exp(__real__ z); return cmk(e * cos(__imag__ z), e * sin(__imag__ z)); }
double _Complex clog(double _Complex z) { return cmk(log(cabs(z)), carg(z)); }
double _Complex cpow(double _Complex a, double _Complex b) { return cexp(b * clog(a)); }
static int g_errno;
int* __errno_location() { return &g_errno; }
static unsigned long scan(const char* s, char** end, int base, unsigned long posMax, unsigned long negMax, bool sg)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false, over = false, any = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const unsigned long max = neg && sg ? negMax : posMax;
    unsigned long v = 0;
    for (;; p++)
    {
        int c = *p, d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
        if (d >= base) break;
        any = true;
        if (v > (max - d) / base) over = true;
        else v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    if (over) { g_errno = 34; return neg && sg ? 0 - negMax : posMax; }
    return neg ? 0 - v : v;
}
#define STRTO(name, T, max, nmax, sg) T name(const char* s, char** e, int b) { return (T)scan(s, e, b, max, nmax, sg); }
STRTO(strtol, long, 0x7fffffffffffffffUL, 0x8000000000000000UL, true)
STRTO(strtoll, long long, 0x7fffffffffffffffUL, 0x8000000000000000UL, true)
STRTO(strtoul, unsigned long, ~0UL, ~0UL, false)
STRTO(strtoull, unsigned long long, ~0UL, ~0UL, false)
const char* strstr_(const char* a, const char* b) { for (;; a++) { size_t i = 0; while (b[i] && a[i] == b[i]) i++; if (!b[i]) return a; if (!*a) return nullptr; } }
char* strstr(const char* a, const char* b) { return (char*)strstr_(a, b); }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
}
#pragma clang attribute pop

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
const nothrow_t nothrow = nothrow_t{};

// message holder of the standard exceptions: a plain heap copy
static char* dupz(const char* s) { size_t n = strlen(s); char* p = (char*)::operator new(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupz(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { ::operator delete((void*)_M_p); _M_p = dupz(o._M_p); } return *this; }
__cow_string::~__cow_string() { ::operator delete((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dupz(""); }

runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}

void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }

range_error::range_error(const char* s) : runtime_error(s) {}
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }

// std::list and the unordered containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    auto fix = [](_List_node_base& n, _List_node_base* self) { if (n._M_next == self) n._M_next = n._M_prev = &n; else n._M_next->_M_prev = n._M_prev->_M_next = &n; };
    _List_node_base t = x; x = y; y = t;
    fix(x, &y); fix(y, &x);
}
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const unsigned small[] = {1, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    static const unsigned primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091};
    if (n == 0) return 1;
    size_t b = 0;
    if (n < 14) b = small[n];
    else { for (unsigned p : primes) if (p >= n) { b = p; break; } if (!b) b = n | 1; }
    _M_next_resize = (size_t)__builtin_floor(b * (double)_M_max_load_factor);
    return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins <= _M_next_resize) return {false, 0};
    size_t want = elt + ins;
    if (!_M_next_resize && want < 11) want = 11;
    double m = want / (double)_M_max_load_factor;
    if (m >= bkt) { size_t a = (size_t)__builtin_floor(m) + 1, b = bkt * 2; return {true, _M_next_bkt(a < b ? b : a)}; }
    _M_next_resize = (size_t)__builtin_floor(bkt * (double)_M_max_load_factor);
    return {false, 0};
}
}
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept
{
    string t(f, l);
    char* e;
    if (t.empty() || t[0] == '+' || isspace((unsigned char)t[0])) return {f, errc::invalid_argument};
    double r = strtod(t.c_str(), &e);
    if (e == t.c_str()) return {f, errc::invalid_argument};
    v = r;
    return {f + (e - t.c_str()), errc{}};
}

// MurmurHash64A, as in libstdc++
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* const buf = (const char*)ptr;
    auto load = [](const char* p) { unsigned long r; __builtin_memcpy(&r, p, 8); return r; }; auto smix = [](size_t v) { return v ^ (v >> 47); };
    const size_t len_aligned = len & ~(size_t)0x7; const char* const end = buf + len_aligned; size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8) { const size_t data = smix(load(p) * mul) * mul; hash ^= data; hash *= mul; }
    if ((len & 0x7) != 0) { size_t data = 0; int n = len & 7; --n; do data = (data << 8) + (unsigned char)end[n]; while (--n >= 0); hash ^= data; hash *= mul; }
    hash = smix(hash) * mul; hash = smix(hash); return hash;
}
}
