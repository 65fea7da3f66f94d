// to_integer is exact for every value the target type can hold.
#include "h.h"
template <typename T>
static void exact(const char* max, const char* negMax)  // every n-digit number of the type
{
    char b[32];
    int n = sym_param("n", 5), neg = sym_fork(sym_range("neg", 0, std::is_signed_v<T>));
    unsigned long m = upTo(n, neg ? negMax : max, b + 1);
    b[n + 1] = 0;
    b[0] = neg ? '-' : '+';
    Int a(b);
    CHECK(a.to_integer<T>() == (T)(neg ? 0 - m : m), "to_integer gives the value");
    sym_cover("converted");
}
extern "C" void harness()
{
    switch (MODE)
    {
    case 0: exact<int>("2147483647", "2147483648"); break;
    case 1: exact<long>("9223372036854775807", "9223372036854775808"); break;
    case 2: exact<short>("32767", "32768"); break;
    case 3: exact<signed char>("127", "128"); break;
    case 4: exact<unsigned>("4294967295", ""); break;
    case 5: exact<unsigned long>("18446744073709551615", ""); break;
    case 6: {  // through int and back
        int v = sym_range("v", -99999, 99999);
        CHECK(Int(v).to_integer<int>() == v, "Int(v).to_integer<int>() == v");
        break;
    }
    }
}
