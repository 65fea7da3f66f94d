// Rotation, reversal, erasure, concatenation and repetition of a string.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 3), m = sym_param("m", 1);
    std::string t = text("t", n);
    const Str s(t);
    switch (MODE)
    {
    case 0: {
        // any int, by its remainder: q * n + r of either sign, or one of the last ones before the ends
        int z = n ? n : 1, q, k, where = sym_fork(sym_range("where", 0, 3));
        if (where < 2)
        {
            int r = sym_fork(sym_range("r", 0, z - 1));
            k = sym_range("q", 0, INT_MAX / z - 1) * z + r;
            q = where == 1 ? (z - r) % z : r;
            if (where == 1) k = -k;
        }
        else { int j = sym_fork(sym_range("end", 0, 2 * z)); k = where == 2 ? INT_MAX - j : INT_MIN + j; q = (k % z + z) % z; }
        std::string l = show(s << k), r = show(s >> k);
        CHECK((int)l.size() == n && (int)r.size() == n, "a rotation keeps the length");
        for (int i = 0; i < n; i++) { CHECK(l[i] == t[(i + q) % n], "rotation to the left"); CHECK(r[(i + q) % n] == t[i], "rotation to the right"); }
        sym_cover("rotated");
        break;
    }
    case 1: {
        std::string u = text("u", m);
        char c = sym_range("c", -128, 127);
        std::string r = show(s.reverse());
        CHECK((int)r.size() == n, "reverse() keeps the length");
        for (int i = 0; i < n; i++) CHECK(r[i] == t[n - 1 - i], "reverse()");
        sameText(show(s + c), t + c, "appending a character");
        sameText(show(s + Str(u)), t + u, "concatenation");
        sameText(show(s + s), t + t, "a string and itself");
        sameText(show(s), t, "the string is unchanged");
        sym_cover("appended");
        break;
    }
    case 2: {
        int start = anyInt("start"), stop = anyInt("stop");
        std::string r;
        bool bad = throws([&] { r = show(s.erase(start, stop)); });
        CHECK(bad == (start < 0 || stop < start || stop > n), "an erased range is refused exactly when it is not a range of the string");
        if (bad) { sym_cover("refused"); break; }
        int a = sym_fork(start), b = sym_fork(stop);
        sameText(r, t.substr(0, a) + t.substr(b), "erase() removes the range and nothing else");
        sym_cover("erased");
        break;
    }
    case 3: {
        int k = anyInt("times");
        bool small = k <= (int)sym_param("max", 4), huge = (long)k * n > INT_MAX;
        sym_assume(small || huge);
        std::string r, want;
        bool bad = throws([&] { r = show(s * k); });
        CHECK(bad == (k < 0 || huge), "repeating is refused exactly when the number is negative or the result has no size");
        if (bad) { sym_cover("refused"); break; }
        k = sym_fork(k);
        for (int i = 0; i < k; i++) want += t;
        sameText(r, want, "repetition");
        sym_cover("repeated");
        break;
    }
    }
}
