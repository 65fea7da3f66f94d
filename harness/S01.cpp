// Indexing and slicing a string: every int as index, bound and step.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 3);
    std::string t = text("t", n);
    const Str s(t);
    switch (MODE)
    {
    case 0: {
        int i = anyInt("i");
        char c = 0;
        bool bad = throws([&] { c = s[i]; });
        CHECK(bad == (i < -n || i >= n), "an index is refused exactly when it is outside the string");
        if (!bad) { int k = sym_fork(i); CHECK(c == t[k < 0 ? k + n : k], "the element at an index"); sym_cover("element"); }
        else sym_cover("refused");
        CHECK(s.size() == n && s.is_empty() == (n == 0), "size");
        int k = 0;
        for (char x : s) CHECK(x == t[k++], "iteration visits the characters in order");
        CHECK(k == n, "iteration visits every character");
        for (auto it = s.rbegin(); it != s.rend(); ++it) CHECK(*it == t[--k], "reverse iteration");
        CHECK(std::memcmp(s.data(), t.data(), n) == 0, "data()");
        break;
    }
    case 1: {
        int start = anyInt("start"), stop = anyInt("stop"), step = sym_param("step", 0) ? sym_param("step", 0) : anyInt("step");
        std::string r;
        bool bad = throws([&] { r = show(s.slice(start, stop, step)); });
        CHECK(bad == (step == 0 || start < -n || start >= n || stop < -n - 1 || stop > n), "a slice is refused exactly when a bound is outside the string or the step is zero");
        if (bad) { sym_cover("refused slice"); break; }
        int a = sym_fork(start), b = sym_fork(stop);
        a = a < 0 ? a + n : a; b = b < 0 ? b + n : b;
        std::string want;
        for (long i = a; step > 0 ? i < b : i > b; i += step) want += t[i];
        sameText(r, want, "a slice takes the elements from start towards stop");
        sameText(show(s), t, "slicing leaves the string unchanged");
        sym_cover("slice");
        break;
    }
    case 2: {  // the default step
        int start = anyInt("start"), stop = anyInt("stop");
        std::string r, q;
        bool bad = throws([&] { r = show(s.slice(start, stop)); });
        bool bad1 = throws([&] { q = show(s.slice(start, stop, 1)); });
        CHECK(bad == bad1, "the default step is one");
        sameText(r, q, "the default step is one");
        break;
    }
    }
}
