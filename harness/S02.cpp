// Searching a string agrees with the definition of an occurrence.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 3), m = sym_param("m", 1);
    static const char* const periodic[] = {"aab", "abab", "aabaa", "ababb", "abaab", "aaaa", "bab", "aabaaaa", "abaababa", "aabaabb", "abababb"};
    const int k = sym_param("periodic", 0);  // a fixed pattern that overlaps itself, in texts of two letters
    std::string t = k ? text("t", n, 'a', 'b') : text("t", n), p = k ? periodic[k - 1] : text("p", m);
    m = p.size();
    const Str s(t), pat(p);
    switch (MODE)
    {
    case 0: {
        int start = anyInt("start"), stop = anyInt("stop");
        int r = s.find(pat, start, stop);
        bool c = s.contains(pat, start, stop);
        CHECK(c == (r != -1), "contains() agrees with find()");
        bool valid = start >= 0 && start <= n && start <= stop;
        if (!valid) { CHECK(r == -1, "nothing is found in a range that is outside the string or empty backwards"); sym_cover("no range"); break; }
        int a = sym_fork(start), e = stop > n ? n : sym_fork(stop), f = sym_fork(r);
        if (f == -1) { for (int i = a; i + m <= e; i++) CHECK(!matches(t, i, p), "find() misses no occurrence"); sym_cover("absent"); }
        else
        {
            CHECK(f >= a && f + m <= e && matches(t, f, p), "find() returns an occurrence inside the range");
            for (int i = a; i < f; i++) CHECK(!matches(t, i, p), "find() returns the first occurrence");
            sym_cover("found");
        }
        break;
    }
    case 1: {  // the default range is the whole string
        int r = s.find(pat), q = s.find(pat, 0, n);
        CHECK(r == q && s.contains(pat) == (r != -1), "the default range is the whole string");
        int start = anyInt("start");
        CHECK(s.find(pat, start) == s.find(pat, start, INT_MAX), "the default end is the end of the string");
        break;
    }
    case 2: {
        int c = s.count(pat), want = 0;
        if (m == 0) want = n + 1;
        else for (int i = 0; i + m <= n;) { if (matches(t, i, p)) { want++; i += m; } else i++; }
        CHECK(c == want, "count() is the number of occurrences that do not overlap, from the left");
        sym_cover("counted");
        break;
    }
    case 3:
        CHECK(s.starts_with(pat) == (m <= n && matches(t, 0, p)), "starts_with()");
        CHECK(s.ends_with(pat) == (m <= n && matches(t, n - m, p)), "ends_with()");
        sym_cover("ends");
        break;
    }
}
