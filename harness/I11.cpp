// random(n) is a non-negative integer of exactly n digits, whatever the random source delivers.
#include "h.h"
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (MODE)
    {
    case 0: {
        Int r = Int::random(n);
        std::string s = str(r);
        CHECK(canonical(s), "a random integer is canonical");
        CHECK(r.digits() == n && (n == 0 ? s == "0" : s.size() == (size_t)n), "a random integer has the number of digits asked for");
        CHECK(!r.is_negative() && r.is_zero() == (n == 0), "a random integer is not negative");
        CHECK(r + 1 - 1 == r, "a random integer is usable in arithmetic");
        sym_cover("random");
        break;
    }
    case 1: {
        int bad = sym_range("bad", -2147483647 - 1, -2);
        CHECK(throws([&] { Int::random(bad); }), "a negative number of digits is refused");
        break;
    }
    }
}
