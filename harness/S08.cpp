// Comparison, hash, formatting, printing, reading, and strings as values.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 2), m = sym_param("m", 2);
    switch (MODE)
    {
    case 0: {
        std::string t = text("t", n), u = text("u", m);
        const Str a(t), b(u);
        int c = n < m ? -1 : n > m;
        for (int i = std::min(n, m) - 1; i >= 0; i--) c = (u8)t[i] < (u8)u[i] ? -1 : (u8)t[i] > (u8)u[i] ? 1 : c;
        CHECK((a == b) == (c == 0) && (a != b) == (c != 0), "equality is equality of the characters");
        CHECK((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "the order is lexicographic");
        if (c == 0) { CHECK(std::hash<Str>()(a) == std::hash<Str>()(b), "equal strings hash equally"); sym_cover("equal"); }
        break;
    }
    case 1: {
        std::string t = text("t", n);
        int x = sym_range("x", -9, 9);
        char y = sym_range("y", 33, 126);
        std::string got = show(Str(t).format(x, y)), want;
        size_t at = 0;
        for (int k = 0; k < 2; k++)
        {
            size_t o = at;
            while (o < t.size() && t[o] != '{') o++;
            size_t c = o;
            while (c < t.size() && t[c] != '}') c++;
            if (c >= t.size()) break;
            want += t.substr(at, o - at);
            if (k == 0) { if (x < 0) want += '-'; want += '0' + (x < 0 ? -x : x); }
            else want += y;
            at = c + 1;
            sym_cover(k ? "second argument" : "first argument");
        }
        want += t.substr(at);
        sameText(got, want, "format() puts the arguments into the braces, in order, and keeps the rest");
        break;
    }
    case 2: {
        std::string t = text("t", n);
        sameText(str(Str(t)), "\"" + t + "\"", "a string prints between quotes");
        Str r("old");
        std::istringstream is(t + "\nrest");
        is >> r;
        size_t e = 0;
        while (e < t.size() && t[e] != '\n') e++;
        sameText(show(r), t.substr(0, e), "reading takes a line");
        CHECK(is.good(), "a line that ends is read without an error");
        sym_cover("read");
        break;
    }
    case 3: {
        std::string t = text("t", n), u = text("u", m);
        Str a(t), b(u), c(a);
        CHECK(a == c, "a copy equals the original");
        a = b;
        CHECK(show(a) == u && show(c) == t && show(b) == u, "assignment copies, and copies are independent");
        Str d(std::move(c));
        CHECK(show(d) == t, "a move keeps the value");
        c = d;
        CHECK(show(c) == t, "a moved-from string can be assigned to");
        b = std::move(d);
        CHECK(show(b) == t, "move assignment keeps the value");
        d = Str("x");
        CHECK(show(d) == "x" && show(b) == t, "a moved-from string can be assigned to");
        Str e(t.c_str());
        size_t z = 0;
        while (z < t.size() && t[z]) z++;
        CHECK(show(e) == t.substr(0, z), "a string from characters ends at the null character");
        Str& f = a;
        a = f;
        CHECK(show(a) == u, "self-assignment");
        sym_cover("values");
        break;
    }
    }
}
