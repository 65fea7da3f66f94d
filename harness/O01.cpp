// Printing: the form of every container, nested too, at any width of its numbers; the state of the stream is left alone.
#include "c.h"
#include <iomanip>
template <typename C> static std::string join(const C& v, const char* open, const char* close)
{
    std::string s = open;
    for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + v[i];
    return s + close;
}
static std::string inq(const std::string& t) { return "\"" + t + "\""; }
// an int of the given number of digits and either sign, with its decimal text
static int num(const char* nm, int n, std::string& s)
{
    bool neg = sym_fork(sym_range("neg", 0, 1));
    int v = 0;
    s = neg ? "-" : "";
    for (int i = 0; i < n; i++) { int d = sym_range(nm, i || n == 1 ? neg && n == 1 ? 1 : 0 : 1, 9); s += '0' + d; v = v * 10 + d; }
    return neg ? -v : v;
}
extern "C" void harness()
{
    int n = sym_param("n", 2), digits = sym_param("digits", 2);
    std::vector<int> v;
    std::vector<std::string> t;
    auto fill = [&] { for (int i = 0; i < n; i++) { std::string s; v.push_back(num("e", digits, s)); t.push_back(s); } };
    switch (MODE)
    {
    case 0: {  // sequences of numbers
        fill();
        sameText(str(List<int>(v)), join(t, "[", "]"), "a list prints its elements between square brackets");
        sameText(str(Deque<int>(v.begin(), v.end())), join(t, "<", ">"), "a deque prints its elements between angle brackets");
        sym_cover("sequence");
        break;
    }
    case 1: {  // sets and dictionaries, in ascending order
        fill();
        for (int i = 1; i < n; i++) sym_assume(v[i - 1] < v[i]);
        Set<int> s;
        Dict<int, int> d;
        std::vector<std::string> p;
        for (int i = n - 1; i >= 0; i--) { s.add(v[i]); d.add(v[i], v[n - 1 - i]); }
        for (int i = 0; i < n; i++) p.push_back(t[i] + ": " + t[n - 1 - i]);
        sameText(str(s), join(t, "{", "}"), "a set prints its elements between braces");
        sameText(str(d), join(p, "{", "}"), "a dictionary prints its pairs between braces");
        sym_cover("ordered");
        break;
    }
    case 2: {  // strings, empty containers, nested containers
        std::string a = text("a", n), b = text("b", 1);
        const Str s(a), u(b);
        sameText(str(s), inq(a), "a string prints between quotes");
        sameText(str(List<Str>{s, u}), "[" + inq(a) + ", " + inq(b) + "]", "a list of strings");
        sameText(str(List<List<Str>>{{s}, {}, {u, s}}), "[[" + inq(a) + "], [], [" + inq(b) + ", " + inq(a) + "]]", "nested lists");
        sameText(str(Dict<int, List<Str>>{{1, {s}}, {2, {}}}), "{1: [" + inq(a) + "], 2: []}", "a dictionary of lists");
        sameText(str(Deque<Dict<int, Str>>{{{7, s}}, {}}), "<{7: " + inq(a) + "}, {}>", "a deque of dictionaries");
        sameText(str(Set<int>()) + str(Dict<int, int>()) + str(List<int>()) + str(Deque<int>()) + str(Str()), "{}{}[]<>\"\"", "empty containers");
        sameText(str(pyincpp::make_tuple(s)) + str(pyincpp::make_tuple(u, 5, s)) + str(Tuple<>()), "(" + inq(a) + ",)(" + inq(b) + ", 5, " + inq(a) + ")()", "tuples");
        sameText(str(pyincpp::make_tuple(List<Str>{u}, pyincpp::make_tuple(1, s))), "([" + inq(b) + "], (1, " + inq(a) + "))", "nested tuples");
        sameText(str(pyincpp::make_tuple(Complex(1, -2))) + str(pyincpp::make_tuple(pyincpp::make_tuple(7))) + str(pyincpp::make_tuple(pyincpp::make_tuple(7, s))), "((1-2j),)((7,),)((7, " + inq(a) + "),)", "a tuple of one that ends in a bracket");
        sameText(str(pyincpp::make_tuple(List<int>())) + str(pyincpp::make_tuple(Tuple<>())) + str(pyincpp::make_tuple(Fraction(3, -6))) + str(pyincpp::make_tuple(Str(""))) + str(pyincpp::make_tuple(Set<int>{4})), "([],)((),)(-1/2,)(\"\",)({4},)", "a tuple of one container");
        sameText(str(List<Tuple<int>>{pyincpp::make_tuple(1), pyincpp::make_tuple(-2)}) + str(Set<List<int>>{{2}, {1, 3}, {}}) + str(Dict<Str, Set<int>>{{s, {2, 1}}}), "[(1,), (-2,)]{[], [1, 3], [2]}{" + inq(a) + ": {1, 2}}", "containers of containers");
        sameText(str(List<Fraction>{{1, 2}, {4, 2}, {-3, 6}}) + str(Deque<Complex>{{1, 2}, {0, -1}}) + str(List<List<List<int>>>{{{1}, {}}, {}}), "[1/2, 2, -1/2]<(1+2j), (0-1j)>[[[1], []], []]", "containers of numbers");
        sym_cover("nested");
        break;
    }
    case 3: {  // tuples of numbers
        n = 3;
        fill();
        sameText(str(pyincpp::make_tuple(v[0], v[1], v[2])), join(t, "(", ")"), "a tuple prints its elements between round brackets");
        t.pop_back();
        sameText(str(pyincpp::make_tuple(v[0], v[1])), join(t, "(", ")"), "a tuple prints its elements between round brackets");
        sameText(str(pyincpp::make_tuple(v[0])), "(" + t[0] + ",)", "a tuple of one prints a comma");
        sym_cover("tuple");
        break;
    }
    case 4: {  // integers and fractions inside containers; two objects on one stream
        std::string x, y;
        int a = num("a", digits, x), b = num("b", 1, y);
        sameText(str(List<Int>{a, b, Int("12345678901234567890")}), "[" + x + ", " + y + ", 12345678901234567890]", "a list of integers");
        std::ostringstream os;
        os << Int(a) << ' ' << List<int>{b} << Int(b) << "|" << std::setw(5) << std::left << 42 << "|";
        sameText(os.str(), x + " [" + y + "]" + y + "|42   |", "several objects on a stream");
        sym_cover("several");
        break;
    }
    case 5: {  // the format of the stream is as it was
        std::string x;
        int a = num("a", digits, x);
        std::ostringstream os;
        os << std::setfill('*');
        switch (sym_fork(sym_range("flags", 0, 7)))
        {
        case 0: os << std::hex << std::showbase; break;
        case 1: os << std::showpos; break;
        case 2: os << std::left << std::uppercase; break;
        case 3: os << std::scientific << std::showpoint; break;
        case 4: os << std::fixed << std::setprecision(2); break;
        case 5: os << std::oct << std::internal; break;
        case 6: os << std::boolalpha << std::unitbuf << std::right; break;
        }
        auto f = os.flags();
        auto p = os.precision();
        os << Int(a) << Str("s") << Int(123456789) << Set<int>() << Fraction(a, 7) << Dict<int, Str>{{1, "x"}} << Set<int>{3, 4} << List<Int>{a} << Deque<int>() << Complex(1, 2) << pyincpp::make_tuple(Int(a)) << Dict<int, int>();
        CHECK(os.fill() == '*', "printing leaves the fill character");
        CHECK(os.flags() == f, "printing leaves the format flags");
        CHECK(os.precision() == p, "printing leaves the precision");
        CHECK(os.good(), "printing leaves the stream good");
        sym_cover("state");
        break;
    }
    }
}
