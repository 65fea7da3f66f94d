// Replacing, splitting and joining.
#include "h.h"
static std::vector<std::string> pieces(const std::string& t, const std::string& p)  // the parts between occurrences
{
    std::vector<std::string> v(1);
    for (size_t i = 0; i < t.size();)
        if (i + p.size() <= t.size() && matches(t, i, p)) { v.emplace_back(); i += p.size(); }
        else v.back() += t[i++];
    return v;
}
extern "C" void harness()
{
    int n = sym_param("n", 3), m = sym_param("m", 1), k = sym_param("k", 1);
    switch (MODE)
    {
    case 0: {
        std::string t = text("t", n), p = text("p", m), w = text("w", k);
        const Str s(t);
        std::string r = show(s.replace(p, w)), want;
        if (m == 0) { want = w; for (char c : t) { want += c; want += w; } }
        else { auto v = pieces(t, p); want = v[0]; for (size_t i = 1; i < v.size(); i++) want += w + v[i]; }
        sameText(r, want, "replace() exchanges every occurrence");
        sameText(show(s), t, "replace() leaves the string unchanged");
        sym_cover("replaced");
        break;
    }
    case 1: {
        std::string t = text("t", n), p = text("p", m);
        const Str s(t), sep(p);
        List<Str> a, b;
        bool bad = throws([&] { a = s.split(sep, true); b = s.split(sep); });
        CHECK(bad == (m == 0), "only an empty separator is refused");
        if (bad) { sym_cover("empty separator"); break; }
        auto v = pieces(t, p);
        CHECK(a.size() == (int)v.size(), "split() returns all parts");
        for (size_t i = 0; i < v.size(); i++) sameText(show(a[i]), v[i], "split() returns the parts in order");
        size_t j = 0;
        for (auto& x : v) if (x.size()) { CHECK((int)j < b.size(), "split() without empty parts keeps every other part"); sameText(show(b[j++]), x, "split() without empty parts keeps every other part"); }
        CHECK(b.size() == (int)j, "split() leaves out empty parts only");
        sameText(show(sep.join(a)), t, "joining the parts with the separator gives the string back");
        sym_cover("split");
        break;
    }
    case 2: {
        std::string sep = text("s", m), want;
        List<Str> l;
        for (int i = 0; i < n; i++) { std::string x = text("x", sym_fork(sym_range("len", 0, k))); if (i) want += sep; want += x; l += Str(x); }
        sameText(show(Str(sep).join(l)), want, "join() puts the separator between the strings");
        sym_cover("joined");
        break;
    }
    case 3: {  // the default separator is a space
        std::string t = text("t", n);
        List<Str> a = Str(t).split(), b = Str(t).split(" ", false);
        CHECK(a == b, "the default separator is a space");
        break;
    }
    }
}
