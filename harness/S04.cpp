// Case conversion changes letters only; strip removes blanks (or one character) at the ends only.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 3);
    std::string t = text("t", n);
    const Str s(t);
    switch (MODE)
    {
    case 0: {
        std::string lo = show(s.lower()), up = show(s.upper());
        CHECK((int)lo.size() == n && (int)up.size() == n, "case conversion keeps the length");
        for (int i = 0; i < n; i++)
        {
            bool isU = t[i] >= 'A' && t[i] <= 'Z', isL = t[i] >= 'a' && t[i] <= 'z';
            CHECK(lo[i] == (isU ? t[i] + 32 : t[i]), "lower() converts capital letters and nothing else");
            CHECK(up[i] == (isL ? t[i] - 32 : t[i]), "upper() converts small letters and nothing else");
        }
        sameText(show(s), t, "case conversion leaves the string unchanged");
        sym_cover("case");
        break;
    }
    case 1: case 2: {
        int c = MODE == 1 ? -1 : (int)sym_range("c", -128, 127);
        sym_assume(MODE == 1 || c != -1);
        auto drop = [&](char x) { return MODE == 1 ? (u8)x <= 0x20 : x == (char)c; };
        std::string r = show(MODE == 1 ? s.strip() : s.strip((signed char)c));
        int a = 0, b = n;
        while (a < n && drop(t[a])) a++;
        while (b > a && drop(t[b - 1])) b--;
        sameText(r, t.substr(a, b - a), "strip() removes what is to be removed at both ends, and nothing else");
        sym_cover("stripped");
        if (a > 0 && b < n && a < b) sym_cover("both ends");
        break;
    }
    }
}
