// Lists: slices, rotation, reversal and repetition.
#include "c.h"
template <typename T>
static void run(int n)
{
    const std::vector<T> v = anySeq<T>("e", n);
    const List<T> c(v);
    switch (MODE)
    {
    case 0: {
        int start = anyInt("start"), stop = anyInt("stop"), step = sym_param("step", 0) ? sym_param("step", 0) : anyInt("step");
        List<T> r;
        bool bad = throws([&] { r = c.slice(start, stop, step); });
        CHECK(bad == (step == 0 || start < -n || start >= n || stop < -n - 1 || stop > n), "a slice is refused exactly when a bound is outside the list or the step is zero");
        holds(c, v, "slicing leaves the list unchanged");
        if (bad) { sym_cover("refused slice"); break; }
        int a = sym_fork(start), b = sym_fork(stop);
        a = a < 0 ? a + n : a; b = b < 0 ? b + n : b;
        std::vector<T> want;
        for (long i = a; step > 0 ? i < b : i > b; i += step) want.push_back(v[i]);
        holds(r, want, "a slice takes the elements from start towards stop");
        if (step == 1) holds(c.slice(start, stop), want, "the default step is one");
        sym_cover("slice");
        break;
    }
    case 1: {  // any rotation: n = k * size + r
        if (n)
        {
            int r, by = rotation(n, r);
            List<T> x(c), y(c);
            x <<= by; y >>= by;
            std::vector<T> lw, rw;
            for (int i = 0; i < n; i++) { lw.push_back(v[(i + r) % n]); rw.push_back(v[(i + n - r) % n]); }
            holds(x, lw, "<<= moves the elements to the left");
            holds(y, rw, ">>= moves the elements to the right");
        }
        else { int by = anyInt("by"); List<T> x(c); x <<= by; x >>= by; holds(x, v, "rotation of the empty list"); }
        sym_cover("rotated");
        break;
    }
    case 2: {
        static const int edges[] = {INT_MIN, INT_MIN + 1, -7, -1, 0, 1, 7, INT_MAX - 1, INT_MAX};
        int by = edges[sym_fork(sym_range("edge", 0, 8))];
        List<T> x(c), y(c);
        x <<= by; y >>= by;
        std::vector<T> lw, rw;
        for (int i = 0; i < n; i++) { long r = (((long)by % n) + n) % n; lw.push_back(v[(i + r) % n]); rw.push_back(v[(i + n - r) % n]); }
        holds(x, lw, "<<= moves the elements to the left");
        holds(y, rw, ">>= moves the elements to the right");
        x >>= by;
        holds(x, v, "rotations cancel");
        break;
    }
    case 3: {
        List<T> x(c);
        x.reverse();
        holds(x, std::vector<T>(v.rbegin(), v.rend()), "reverse");
        x.reverse();
        holds(x, v, "reversing twice");
        break;
    }
    case 4: {
        int max = sym_param("max", 4), k = anyInt("times");
        List<T> r;
        sym_assume(k <= max || (n > 0 && k > INT_MAX / n) || n == 0 && k > INT_MAX - 1);
        if (n == 0) sym_assume(k <= max);
        bool bad = throws([&] { r = c * k; });
        CHECK(bad == (k < 0 || (n > 0 && k > INT_MAX / n)), "repetition is refused exactly when the times are negative or too many");
        List<T> x(c);
        bool bad2 = throws([&] { x *= k; });
        CHECK(bad == bad2, "*= and * agree");
        if (bad) { holds(x, v, "a refused repetition changes nothing"); sym_cover("refused repetition"); break; }
        int t = sym_fork(k);
        std::vector<T> want;
        for (int i = 0; i < t; i++) want.insert(want.end(), v.begin(), v.end());
        holds(r, want, "repetition");
        holds(x, want, "repetition in place");
        holds(c, v, "repetition leaves its operand unchanged");
        sym_cover("repeated");
        break;
    }
    }
}
extern "C" void harness()
{
    int n = sym_param("n", 3);
    switch (sym_param("t", 0))
    {
    case 0: run<int>(n); break;
    case 1: run<Str>(n); break;
    case 2: run<List<int>>(n); break;
    }
}
