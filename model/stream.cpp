// Model of the out-of-line part of the standard streams: the C locale, and number formatting and parsing.
// Compiled with -fno-access-control.
#define MODEL_BUILD
#include "pre.h"
#include "sym.h"
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <set>

namespace std {
// ---- locale
locale::id ctype<char>::id;
size_t locale::id::_M_id() const throw() { return this == &::std::ctype<char>::id ? 0 : 1; }
locale::facet::~facet() {}
static ctype_base::mask g_mask[256];
static const locale::facet* g_facets[2];
alignas(16) static char g_implBuf[sizeof(locale::_Impl)];
alignas(16) static char g_ctypeBuf[sizeof(ctype<char>)];
static bool g_ready;
static void prepare() {
    if (g_ready) return;
    g_ready = true;
    for (int c = 0; c < 128; c++) {
        unsigned m = 0;
        if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
        if (c >= '0' && c <= '9') m |= ctype_base::digit | ctype_base::xdigit;
        if (c >= 'a' && c <= 'z') m |= ctype_base::lower | ctype_base::alpha;
        if (c >= 'A' && c <= 'Z') m |= ctype_base::upper | ctype_base::alpha;
        if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
        if (c < 32 || c == 127) m |= ctype_base::cntrl; else m |= ctype_base::print;
        if (c > 32 && c < 127 && !(m & (ctype_base::alpha | ctype_base::digit))) m |= ctype_base::punct;
        if (c == ' ' || c == '\t') m |= ctype_base::blank;
        g_mask[c] = (ctype_base::mask)m;
    }
    g_facets[0] = new (g_ctypeBuf) ctype<char>(g_mask, false, 1);
    g_facets[1] = nullptr;
    auto* impl = (locale::_Impl*)g_implBuf; impl->_M_facets = g_facets; impl->_M_facets_size = 2;
}
locale::locale() throw() { prepare(); _M_impl = (_Impl*)g_implBuf; }
locale::locale(const locale& o) throw() { _M_impl = o._M_impl; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }

ctype<char>::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(1), _M_narrow_ok(1) {
    for (int i = 0; i < 256; i++) _M_widen[i] = _M_narrow[i] = (char)i;
}
ctype<char>::~ctype() {}
const ctype<char>::mask* ctype<char>::classic_table() throw() { prepare(); return g_mask; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a != b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a != b; a++) *a = do_tolower(*a); return b; }

// ---- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return "ios failure"; }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
system_error::~system_error() noexcept {}

// ---- number output
static ostream& emit(ostream& os, const char* p, int n, int prefix) { // prefix: characters before internal padding
    ostream::sentry ok(os);
    if (ok) {
        long w = os.width(), pad = w > n ? w - n : 0; auto adj = os.flags() & ios_base::adjustfield; char f = os.fill(); bool good = true; auto* sb = os.rdbuf();
        long before = adj == ios_base::left ? n : adj == ios_base::internal ? prefix : 0;
        for (long i = 0; i < before && good; i++) good = sb->sputc(p[i]) != EOF;
        for (long i = 0; i < pad && good; i++) good = sb->sputc(f) != EOF;
        for (long i = before; i < n && good; i++) good = sb->sputc(p[i]) != EOF;
        os.width(0); if (!good) os.setstate(ios_base::badbit);
    }
    return os;
}
static ostream& integer(ostream& os, bool neg, unsigned long mag, bool isSigned) {
    auto fl = os.flags(); auto bf = fl & ios_base::basefield; unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    char b[72]; int k = 72; bool up = fl & ios_base::uppercase; unsigned long m = mag;
    do { unsigned d = m % base; b[--k] = d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10); m /= base; } while (m);
    int e = k;
    if (base == 10) { if (neg) b[--k] = '-'; else if (isSigned && (fl & ios_base::showpos)) b[--k] = '+'; }
    else if ((fl & ios_base::showbase) && mag) { if (base == 16) b[--k] = up ? 'X' : 'x'; b[--k] = '0'; }
    return emit(os, b + k, 72 - k, e - k);
}
static ostream& integerS(ostream& os, long v) { if ((os.flags() & ios_base::basefield) == ios_base::hex || (os.flags() & ios_base::basefield) == ios_base::oct) return integer(os, false, (unsigned long)v, true); return integer(os, v < 0, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, true); }
template <> template <> ostream& ostream::_M_insert(long v) { return integerS(*this, v); }
template <> template <> ostream& ostream::_M_insert(long long v) { return integerS(*this, v); }
template <> template <> ostream& ostream::_M_insert(unsigned long v) { return integer(*this, false, v, false); }
template <> template <> ostream& ostream::_M_insert(unsigned long long v) { return integer(*this, false, v, false); }
template <> template <> ostream& ostream::_M_insert(bool v) { if (flags() & ios_base::boolalpha) return emit(*this, v ? "true" : "false", v ? 4 : 5, 0); return integerS(*this, v); }
template <> template <> ostream& ostream::_M_insert(const void* v) { auto f = flags(); flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase); integer(*this, false, (unsigned long)v, false); flags(f); return *this; }
template <> template <> ostream& ostream::_M_insert(double v) {
    auto fl = flags(); auto ff = fl & ios_base::floatfield; int prec = (int)precision();
    if (!ff && !(fl & (ios_base::showpoint | ios_base::showpos)) && prec == 6 && v > -1e6 && v < 1e6 && v != 0) { // integral values that %g prints as integers
        long n = (long)v; if ((double)n == v) { bool neg = n < 0; unsigned long m = neg ? -n : n; char b[24]; int k = 24; do { b[--k] = '0' + m % 10; m /= 10; } while (m); int e = k; if (neg) b[--k] = '-'; return emit(*this, b + k, 24 - k, e - k); }
    }
    char f[16]; int i = 0; f[i++] = '%'; if (fl & ios_base::showpos) f[i++] = '+'; if (fl & ios_base::showpoint) f[i++] = '#';
    bool up = fl & ios_base::uppercase; bool hexf = ff == (ios_base::fixed | ios_base::scientific);
    if (!hexf) { f[i++] = '.'; f[i++] = '*'; }
    f[i++] = hexf ? (up ? 'A' : 'a') : ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); f[i] = 0;
    char b[400]; int n = hexf ? snprintf(b, sizeof b, f, v) : snprintf(b, sizeof b, f, prec, v);
    return emit(*this, b, n, n > 0 && (b[0] == '-' || b[0] == '+') ? 1 : 0);
}
template <> template <> ostream& ostream::_M_insert(long double v) { return _M_insert((double)v); }

// ---- number input
template <class T> static istream& parseInt(istream& is, T& out, bool isSigned, unsigned long maxMag, unsigned long minMag) {
    istream::sentry ok(is, false);
    if (!ok) return is;
    auto* sb = is.rdbuf(); ios_base::iostate err = ios_base::goodbit; int c = sb->sgetc();
    auto bf = is.flags() & ios_base::basefield; unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10; // no base prefix handling outside dec
    bool neg = false;
    if (c == '+' || c == '-') { neg = c == '-'; c = sb->snextc(); }
    bool any = false, over = false; unsigned long m = 0;
    for (; c != EOF; c = sb->snextc()) {
        unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = true; if (over || m > (~0ul - d) / base) over = true; else m = m * base + d;
    }
    unsigned long lim = isSigned && neg ? minMag : maxMag;
    if (!any) { out = 0; err |= ios_base::failbit; }
    else if (over || m > lim) { out = isSigned && neg ? (T)(0ul - minMag) : (T)maxMag; err |= ios_base::failbit; }
    else out = neg ? (T)(0ul - m) : (T)m;
    if (c == EOF) err |= ios_base::eofbit;
    if (err) is.setstate(err);
    return is;
}
template <> istream& istream::operator>>(short& v) { return parseInt(*this, v, true, SHRT_MAX, (unsigned long)SHRT_MAX + 1); }
template <> istream& istream::operator>>(int& v) { return parseInt(*this, v, true, INT_MAX, (unsigned long)INT_MAX + 1); }
template <> template <> istream& istream::_M_extract(long& v) { return parseInt(*this, v, true, LONG_MAX, (unsigned long)LONG_MAX + 1); }
template <> template <> istream& istream::_M_extract(long long& v) { return parseInt(*this, v, true, LONG_MAX, (unsigned long)LONG_MAX + 1); }
template <> template <> istream& istream::_M_extract(unsigned short& v) { return parseInt(*this, v, false, USHRT_MAX, 0); }
template <> template <> istream& istream::_M_extract(unsigned int& v) { return parseInt(*this, v, false, UINT_MAX, 0); }
template <> template <> istream& istream::_M_extract(unsigned long& v) { return parseInt(*this, v, false, ULONG_MAX, 0); }
template <> template <> istream& istream::_M_extract(unsigned long long& v) { return parseInt(*this, v, false, ULONG_MAX, 0); }
template <> template <> istream& istream::_M_extract(bool& v) { long l = 0; parseInt(*this, l, true, LONG_MAX, (unsigned long)LONG_MAX + 1); v = l != 0; return *this; }
static istream& parseDouble(istream& is, double& out) {
    istream::sentry ok(is, false);
    if (!ok) return is;
    auto* sb = is.rdbuf(); ios_base::iostate err = ios_base::goodbit; int c = sb->sgetc();
    std::string x; bool dec = false, sci = false, mant = false, neg = false, bad = false; unsigned long m = 0; int nd = 0, frac = 0;
    if (c == '+' || c == '-') { neg = c == '-'; x += (char)c; c = sb->snextc(); }
    for (; c != EOF; ) {
        if (c >= '0' && c <= '9') { x += (char)c; mant = true; if (!sci) { if (m || c != '0') nd++; if (nd <= 15) m = m * 10 + (c - '0'); if (dec) frac++; } }
        else if (c == '.' && !dec && !sci) { x += '.'; dec = true; }
        else if ((c == 'e' || c == 'E') && !sci && mant) { x += 'e'; sci = true; c = sb->snextc(); if (c == '+' || c == '-') { x += (char)c; c = sb->snextc(); } continue; }
        else break;
        c = sb->snextc();
    }
    if (c == EOF) err |= ios_base::eofbit;
    static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    if (!mant) bad = true;
    else if (!sci && nd <= 15 && frac <= 22) { double v = (double)(long)m; if (frac) v /= p10[frac]; out = neg ? -v : v; }
    else { char* end; double v = strtod(x.c_str(), &end); if (*end) bad = true; else if (v > 1.7976931348623157e308) { out = 1.7976931348623157e308; err |= ios_base::failbit; } else if (v < -1.7976931348623157e308) { out = -1.7976931348623157e308; err |= ios_base::failbit; } else out = v; }
    if (bad) { out = 0; err |= ios_base::failbit; }
    if (err) is.setstate(err);
    return is;
}
template <> template <> istream& istream::_M_extract(double& v) { return parseDouble(*this, v); }
template <> template <> istream& istream::_M_extract(float& v) { double d; parseDouble(*this, d); v = (float)d; return *this; }
template <> template <> istream& istream::_M_extract(long double& v) { double d; parseDouble(*this, d); v = d; return *this; }

// ---- random numbers
void random_device::_M_init(const std::string&) {}
void random_device::_M_init(const char*, size_t) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return 1; }
template <> void mt19937::seed(mt19937::result_type) {}
template <> template <> int uniform_int_distribution<int>::operator()(mt19937&, const param_type& p) { return (int)sym_range("draw", p.a(), p.b()); }

// ---- red-black trees
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
    auto* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
    auto* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
    auto*& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            auto* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
        } else {
            auto* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
    auto*& root = header._M_parent; auto*& leftmost = header._M_left; auto*& rightmost = header._M_right;
    auto* y = z; _Rb_tree_node_base *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; auto t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                auto* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
            } else {
                auto* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}

// ---- string extraction (explicit specialisations in the library)
namespace std {
template <> istream& operator>>(istream& is, string& str) {
    ios_base::iostate err = ios_base::goodbit; bool any = false; istream::sentry ok(is, false);
    if (ok) {
        str.erase(); long w = is.width(); auto* sb = is.rdbuf(); int c = sb->sgetc(); long n = 0;
        const ctype<char>& ct = *is._M_ctype;
        while ((w <= 0 || n < w) && c != EOF && !ct.is(ctype_base::space, (char)c)) { str += (char)c; n++; c = sb->snextc(); }
        any = n > 0; if (c == EOF) err |= ios_base::eofbit; is.width(0);
    }
    if (!any) err |= ios_base::failbit;
    if (err) is.setstate(err);
    return is;
}
template <> istream& getline(istream& is, string& str, char delim) {
    ios_base::iostate err = ios_base::goodbit; bool any = false; istream::sentry ok(is, true);
    if (ok) {
        str.erase(); auto* sb = is.rdbuf(); int c = sb->sgetc(); 
        while (c != EOF && c != (unsigned char)delim) { str += (char)c; any = true; c = sb->snextc(); }
        if (c == EOF) err |= ios_base::eofbit; else { any = true; sb->sbumpc(); }
    }
    if (!any) err |= ios_base::failbit;
    if (err) is.setstate(err);
    return is;
}
}
