"""The jobs of every property: harness modes with their bounds.  The integers of a job are handed to the harness as sym_param."""
PROPS = {}


def prop(pid, **k):
    k.setdefault("harness", pid + ".cpp")
    PROPS[pid] = k


def J(mode, thorough=False, **k):
    d = dict(mode=mode, **k)
    if thorough:
        d["thorough"] = True
    return d


def grid(mode, pairs, **k):
    return [J(mode, na=a, nb=b, **k) for a, b in pairs]


T = dict(thorough=True)

SIGNS = (0, 1, 2, 3)

prop("I01", covers=["accepted", "refused", "long literal", "ten digit negative int", "read"],
     bounds="every byte string of up to 4 bytes (thorough: 6) as literal and of up to 3 (4) bytes on a stream; every int; every literal of 1, 5, 18, 21 or 30 digits with sign and up to 3 leading zeros; three right texts with any one byte replaced or inserted",
     jobs=[J(0, n=n) for n in range(0, 5)] + [J(0, n=5, **T), J(0, n=6, **T)] + [J(1, n=n) for n in range(0, 11)]
     + [J(2, n=n, zeros=z) for n, z in ((1, 0), (5, 2), (18, 1), (21, 0), (0, 3), (30, 3))] + [J(2, n=60, zeros=2, **T)] + [J(3, n=n) for n in range(1, 4)] + [J(3, n=4, **T)]
     + [J(0, near=k) for k in (1, 2, 3)])
prop("I02", covers=["sum", "difference", "step", "chain"],
     bounds="operands of every digit value and sign for the digit counts (1,1) (2,1) (1,3) (3,3) (5,4) (4,6) (8,8) (12,3) (0,4) (4,0) (7,25), thorough also (17,17) (25,25); carry and borrow chains over 2 to 30 digits; laws on three operands of 2, 1 and 1 digits",
     jobs=[J(m, na=a, nb=b) for m in (0, 1) for a, b in ((1, 1), (2, 1), (1, 3), (3, 3), (5, 4), (4, 6), (8, 8), (12, 3), (0, 4), (4, 0), (7, 25))]
     + [J(m, na=a, nb=b, **T) for m in (0, 1) for a, b in ((17, 17), (25, 25), (10, 11), (11, 10))]
     + [J(2, na=n) for n in (0, 1, 2, 3, 9, 17, 30)] + [J(3, zeros=z) for z in (2, 7, 8, 17, 30)] + [J(4, na=n) for n in (0, 1, 4, 9, 20)] + [J(5, na=2, nb=1), J(5, na=3, nb=2, nc=2, **T)])
prop("I03", covers=["product"], bounds="operands of every digit value and sign for the digit counts (1,1) (2,3) (4,4) (5,2) (1,9) (0,3) (3,0) (7,7), thorough also (9,9) (12,3) (3,15); squares of every number of up to 5 digits (thorough: 7); products of 10 to 60 digits by 9 to 40 digits with the first and the last digit of one factor any",
     jobs=grid(0, [(7, 7), (1, 1), (2, 3), (4, 4), (5, 2), (1, 9), (0, 3), (3, 0)]) + grid(0, [(8, 8), (9, 9), (12, 3), (3, 15), (1, 18)], **T) + [J(1, na=n) for n in (1, 3, 5)] + [J(1, na=7, **T)] + [J(2, na=a, nb=b) for a, b in ((40, 40), (20, 33), (60, 17), (17, 17), (10, 9))])
prop("I04", covers=["quotient", "long quotient", "long remainder"],
     bounds="operands of every digit value and sign of 1/1, 2/1, 1/2, 2/2, 2/4 digits (thorough: up to 4/3); every divisor of up to 8 digits with fixed quotients of up to 8 digits and the remainders 0, 1, b - 1; four divisors of 10 to 23 digits with every remainder of up to 12 digits; zero divisors; aliased operands",
     jobs=[J(0, na=2, nb=1, signs=s) for s in SIGNS] + grid(0, [(2, 2), (1, 1), (1, 2), (2, 4), (0, 2)]) + [J(0, na=3, nb=3, signs=3)]
     + [J(0, na=3, nb=1, signs=s, parts=4, **T) for s in SIGNS] + [J(0, na=3, nb=2, signs=s, parts=4, **T) for s in (0, 3)] + [J(0, na=4, nb=3, signs=1, parts=2, **T), J(0, na=4, nb=4, signs=2, **T)]
     + [J(1, na=n) for n in (0, 1, 3)] + [J(2, na=n) for n in (1, 2, 5)]
     + [J(3, nb=n, q=q, signs=(n + q) % 4) for n in (1, 3, 8) for q in (0, 2, 5, 7)] + [J(3, nb=n, q=q, signs=(n + q) % 4, **T) for n in (2, 5) for q in range(9)]
     + [J(4, na=n, b=b, q=q, signs=(n + b + q) % 4) for n in (3, 9) for b, q in ((0, 3), (1, 3), (3, 4), (5, 1), (0, 0), (3, 1))])
prop("I05", covers=["equal", "different"], bounds="operands of every digit value and sign of up to 9 digits each; difference in any single digit for 10, 20 and 40 digits",
     jobs=grid(0, [(0, 0), (0, 2), (1, 1), (2, 1), (3, 3), (6, 6), (9, 9)]) + grid(0, [(18, 18), (17, 16)], **T) + [J(1, na=n) for n in (0, 1, 2, 3, 9)] + [J(2, na=n) for n in (10, 20, 40)])
prop("I06", covers=["gcd", "lcm", "prime"],
     bounds="gcd of all pairs of one-digit numbers of any sign (thorough: two-digit); lcm and gcd of 0..9 with every one-digit number, thorough also 0..9, 24, 97 with every two-digit number; gcd and lcm of six pairs of long numbers with any last digit; factorials of 0..32; primality of -20..120 (thorough: ..400), 9960..9971 and 65520..65527, and of 57 pseudoprimes, Carmichael numbers, squares and products of neighbouring primes up to 100160063 (thorough: 59, up to 2147483647)",
     jobs=grid(0, [(0, 0), (0, 2), (1, 0), (1, 1)]) + grid(0, [(2, 1), (1, 2), (2, 2)], parts=2, **T) + [J(1, lo=2 * i, hi=2 * i + 1, nb=1, signs=i % 4) for i in range(5)]
     + [J(1, lo=i, hi=i, nb=2, signs=i % 4, **T) for i in (0, 1, 2, 3, 6, 8, 24, 97)] + [J(2, max=32)] + [J(3, lo=lo, len=20) for lo in (-20, 0, 20, 40, 60, 80, 100)] + [J(3, lo=lo, len=30, **T) for lo in range(120, 400, 30)] + [J(4, na=1), J(4, na=2, parts=2, **T)] + [J(5, k=k) for k in range(6)] + [J(3, lo=lo, len=l) for lo, l in ((9960, 12), (65520, 8))] + [J(6, lo=lo, steps=20000000) for lo in range(0, 45, 8)] + [J(6, lo=48, len=4, steps=60000000)] + [J(6, lo=lo, len=1, steps=600000000) for lo in range(52, 57)] + [J(6, lo=lo, len=1, steps=2000000000, **T) for lo in (57, 58)])
prop("I07", covers=["sqrt", "log"], bounds="sqrt of every number of up to 2 digits (thorough: 3) and around the squares of 10^k - 1, 10^k, 10^k + 1; log of every number of up to 3 digits for bases 2, 3, 7, 9, 10, 11 and of powers of 2..12 of up to 20 digits and of powers of ten bases of 2 to 27 digits",
     jobs=[J(0, na=n) for n in (0, 1, 2)] + [J(0, na=3, parts=2, **T)] + [J(1, k0=k, k1=k) for k in range(12)] + [J(2, na=n, b0=b, b1=b) for n in (1, 2) for b in (2, 3, 7, 9, 10, 11)] + [J(2, na=3, b0=b, b1=b, **T) for b in (2, 3, 7, 9, 10, 11)] + [J(3, na=2), J(4, e0=1, e1=6), J(4, e0=7, e1=12), J(4, e0=20, e1=20)] + [J(5, b=b, max=m) for b, m in ((0, 25), (1, 6), (2, 5), (3, 5), (4, 6), (5, 5), (6, 4), (7, 4), (8, 3), (9, 2))])
prop("I08", covers=["pow", "modpow", "any modulus", "repeated"],
     bounds="every base of up to 3 digits with exponents up to 5; modular: every base of 1 digit (2 for modulus 10) with moduli 7, 10, -10, every modulus of up to 2 digits with fixed bases; exponents up to 19 for bases -11..11 with moduli 97, 10, 7, 1000; negative exponents; modulus 1 and -1; exponents of 10 to 24 digits with any last digit for six bases and six moduli of up to 12 digits",
     jobs=[J(0, na=a, e=e) for a, e in ((0, 0), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (1, 5), (2, 2), (2, 3), (3, 2))] + [J(1, m=7, na=1, e=2)] + [J(1, m=m, na=1, e=e) for m, e in ((4, 1), (4, 2), (4, 3), (9, 1), (-12, 2), (16, 3), (25, 5), (36, 1), (36, 3))] + [J(6, b=b, e=e, nb=n) for b, e, n in ((6, 1, 1), (6, 1, 2), (6, 2, 2), (6, 3, 2), (7, 1, 2), (4, 1, 2))] + [J(6, b=7, e=2, nb=2, **T)] + [ J(1, m=10, na=1, e=5), J(1, m=-10, na=2, e=1), J(1, m=-10, na=2, e=2, **T), J(1, m=97, na=2, e=2, parts=2, **T)]
     + [J(6, b=0, e=5, nb=1), J(6, b=1, e=5, nb=2), J(6, b=2, e=3, nb=2), J(6, b=4, e=0, nb=2), J(6, b=3, e=2, nb=2, **T), J(6, b=5, e=3, nb=3, **T)]
     + [J(2), J(3, na=1), J(3, na=2)] + [J(4, n0=n, n1=n + 3, m=m) for n, m in ((0, 97), (4, 10), (8, 7), (12, 1000), (16, 97))] + [J(5, na=1), J(5, na=2, **T)] + [J(7, k=k, b=b, m=m, steps=20000000) for k, b, m in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 5), (0, 5, 4), (2, 4, 0))])
prop("I09", covers=["converted"], bounds="every value of int, long, short, signed char, unsigned and unsigned long with 1 to 20 digits, split by digit count (1,2,5,9,10 / 1,10,15,18,19 / 1,4,5 / 1,2,3 / 1,5,10 / 1,7,15,19,20; thorough: all)",
     jobs=[J(0, n=n) for n in (1, 2, 5, 9, 10)] + [J(1, n=n) for n in (1, 10, 15, 18, 19)] + [J(2, n=n) for n in (1, 4, 5)] + [J(3, n=n) for n in (1, 2, 3)] + [J(4, n=n) for n in (1, 5, 10)] + [J(5, n=n) for n in (1, 7, 15, 19, 20)] + [J(6)] + [J(m, n=n, strict=True) for m, n in ((0, 10), (1, 19), (2, 5), (3, 3), (4, 10), (5, 19), (5, 20))]
     + [J(0, n=n, **T) for n in (3, 4, 6, 7, 8)] + [J(1, n=n, **T) for n in (2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17)])
prop("I10", covers=["copy", "history"], bounds="two operations out of seven on copies of numbers of up to 2 digits (thorough: 3); moves and self-operations up to 4 digits; histories of 2 (thorough: 3) operations out of six from every pair in -99..99 x -9..9",
     jobs=[J(0, na=n) for n in (0, 1, 2)] + [J(0, na=3, **T)] + [J(1, na=n) for n in (0, 1, 4)] + [J(2, na=n) for n in (0, 1, 2, 3)] + [J(3, k=1), J(3, k=2), J(3, k=3, parts=8, depth=5, **T)])
prop("I11", covers=["random"], bounds="requested digit counts 0, 1, 2, 3, 8, 20 and the default, for every outcome of the underlying distribution", jobs=[J(0, n=n) for n in (0, 1, 2, 3, 8, 20)] + [J(1)])

# ---------------------------------------------------------------- strings
prop("S01", covers=["element", "refused", "slice", "refused slice"], bounds="strings of every content of up to 4 bytes (thorough: 6), every int as index, bound and step; strings of 20 to 40 bytes of which 3 are any, steps 1 and -1",
     jobs=[J(0, n=n) for n in (0, 1, 2, 4)] + [J(1, n=n) for n in (0, 1, 2, 3, 4)] + [J(1, n=5, step=p) for p in (1, -1, 2, -3)] + [J(2, n=n) for n in (0, 3)] + [J(0, n=9), J(1, n=5, **T), J(1, n=6, **T)]
     + [J(0, n=40, free=2), J(1, n=20, free=2, step=1), J(1, n=20, free=2, step=-1), J(2, n=33, free=2), J(1, n=8, free=1, **T)])
prop("S02", covers=["found", "absent", "no range", "counted", "ends"], bounds="strings of every content of up to 4 bytes and patterns of up to 3 (thorough: 6 and 4), every int as start and stop; strings of 10 to 40 bytes of which 1 to 4 are any; texts of two letters of 8 to 12 bytes with eleven self-overlapping patterns",
     jobs=[J(0, n=n, m=m) for n, m in ((0, 0), (0, 1), (1, 1), (2, 0), (3, 1), (3, 2), (4, 2), (4, 3), (2, 3))] + [J(1, n=n, m=m) for n, m in ((0, 1), (3, 1), (3, 2), (2, 0))]
     + [J(2, n=n, m=m) for n, m in ((0, 0), (3, 0), (0, 1), (4, 1), (4, 2), (5, 2), (6, 3), (2, 3))] + [J(3, n=n, m=m) for n, m in ((0, 0), (0, 1), (3, 2), (3, 3), (4, 1), (2, 3))]
     + [J(0, n=5, m=2, **T), J(0, n=6, m=3, **T), J(0, n=6, m=4, **T), J(2, n=7, m=2, **T), J(2, n=8, m=3, **T)]
     + [J(0, n=10, m=2, free=1), J(0, n=12, m=7, free=1), J(1, n=20, m=2, free=1), J(2, n=20, m=2, free=1), J(2, n=20, m=3, free=1), J(3, n=40, m=5, free=3), J(3, n=20, m=20, free=3), J(0, n=12, m=2, free=2, **T)]
     + [J(m, n=n, periodic=k) for m, n in ((1, 8), (2, 9)) for k in range(1, 8)] + [J(2, n=n, periodic=k) for n, k in ((11, 8), (12, 9), (11, 10), (11, 11))])
prop("S03", covers=["replaced", "split", "empty separator", "joined"], bounds="strings of every content of up to 5 bytes with patterns of up to 2 (thorough: 7 and 3), replacements of up to 2 bytes, lists of up to 3 strings of up to 2 bytes; strings of 21 bytes of which 4 are any, lists of 12",
     jobs=[J(0, n=n, m=m, k=k) for n, m, k in ((0, 1, 1), (3, 1, 2), (3, 1, 0), (4, 2, 1), (3, 0, 2), (0, 0, 1), (5, 2, 2), (2, 3, 1), (4, 1, 1))] + [J(1, n=n, m=m) for n, m in ((0, 1), (1, 1), (3, 1), (4, 1), (5, 2), (2, 0), (4, 2), (2, 3))]
     + [J(2, n=n, m=m, k=k) for n, m, k in ((0, 1, 1), (1, 1, 2), (2, 1, 2), (3, 1, 1), (3, 2, 2), (2, 0, 2))] + [J(3, n=3)] + [J(0, n=7, m=2, k=1, **T), J(0, n=7, m=3, k=2, **T), J(1, n=7, m=2, **T), J(1, n=7, m=1, **T)]
     + [J(m, n=21, m=k, k=2, free=3) for m in (0, 1) for k in (1, 2)] + [J(2, n=12, m=1, k=1, free=1), J(2, n=8, m=3, k=2, free=1), J(3, n=12, free=2)])
prop("S04", covers=["case", "stripped", "both ends"], bounds="strings of every content of up to 5 bytes (thorough: 8), every character to strip but the default marker -1; strings of 20 and 40 bytes of which 4 or 5 are any",
     jobs=[J(0, n=n) for n in (0, 1, 4)] + [J(1, n=n) for n in (0, 1, 2, 3, 5)] + [J(2, n=n) for n in (0, 1, 2, 4)] + [J(0, n=20), J(1, n=8, **T), J(2, n=8, **T)]
     + [J(1, n=20, free=3), J(2, n=20, free=3), J(0, n=40, free=4)])
prop("S05", covers=["rotated", "appended", "erased", "refused", "repeated"], bounds="strings of every content of up to 5 bytes; every int as rotation, bound and number of repetitions up to 4 (or too many to have a size); strings of 9 to 33 bytes of which 3 are any, up to 40 times",
     jobs=[J(0, n=n) for n in (0, 1, 2, 3, 4, 5, 8)] + [J(1, n=n, m=m) for n, m in ((0, 0), (1, 2), (3, 2), (5, 1))] + [J(2, n=n) for n in (0, 1, 3, 5)] + [J(3, n=n) for n in (0, 1, 2, 3)] + [J(3, n=3, max=9, **T), J(2, n=9, **T)]
     + [J(0, n=33, free=2), J(1, n=20, m=20, free=2), J(2, n=20, free=2), J(3, n=9, max=20, free=2), J(3, n=1, max=40)])
prop("S06", covers=["accepted", "refused", "every base"], bounds="every text of up to 3 bytes in the bases 2, 10, 16 and 36 (thorough: 4), one digit in every base, decimal text of up to 9 digits, every int as base; texts of 13 to 70 digits in the bases 2, 4, 7, 10, 16 and 36 with one digit that is any; three right texts with any one byte replaced or inserted",
     jobs=[J(0, n=n, base=b) for b in (10, 16, 36) for n in (0, 1, 2)] + [J(0, n=3, base=2), J(0, n=3, base=10), J(0, n=3, base=16)] + [J(1), J(2)] + [J(3, n=n) for n in (1, 5, 9)] + [J(0, n=4, base=10, **T), J(0, n=3, base=36, **T), J(0, n=4, base=2, **T), J(0, n=2, base=35, **T)]
     + [J(4, n=n, base=b, pat=p) for n, b, p in ((13, 36, 0), (15, 36, 1), (20, 16, 2), (70, 2, 0), (25, 36, 2), (24, 7, 0), (19, 10, 0), (16, 16, 0), (32, 4, 1))] + [J(4, n=40, base=b, pat=p, **T) for b in (3, 8, 16, 35) for p in (0, 1, 2)]
     + [J(0, near=1, base=10), J(0, near=3, base=16), J(0, near=2, base=36), J(0, near=3, base=8)])
prop("S07", covers=["number", "inf", "nan", "refused", "structured", "out of range"], bounds="every text of up to 3 bytes (thorough: 4); numbers of up to 3 digits before and after the point, with blanks, signs and exponents -19..19; exponents of 4 to 20 digits; strings of 300 to 330 zeros; nine right texts with any one byte replaced or inserted",
     outside="rounding: the value is compared within a relative 1e-12",
     jobs=[J(0, n=n) for n in (0, 1, 2, 3)] + [J(1, i=i, f=f, x=x, sg=g, blanks=b) for i, f, x, g, b in ((2, -1, 0, 0, 0), (2, 2, 0, 1, 3), (0, 3, 2, 0, 0), (3, 0, 3, 2, 0), (1, -1, 1, 1, 4), (1, 2, 2, 0, 1))] + [J(2, x=x) for x in (4, 5, 10, 20)] + [J(3, z=z) for z in (300, 330)]
     + [J(0, n=4, parts=8, **T), J(1, i=3, f=3, x=2, sg=1, blanks=2, **T)]
     + [J(0, near=k) for k in range(1, 10)])
prop("S08", covers=["equal", "first argument", "second argument", "read", "values"], bounds="pairs of strings of every content of up to 4 bytes; format strings of up to 6 bytes (thorough: 8) with two arguments; lines of up to 4 bytes; strings of 14 to 30 bytes of which 3 or 4 are any",
     jobs=[J(0, n=n, m=m) for n, m in ((0, 0), (0, 1), (1, 1), (2, 2), (2, 3), (4, 4), (9, 9))] + [J(1, n=n) for n in (0, 2, 4, 5, 6)] + [J(2, n=n) for n in (0, 1, 4)] + [J(3, n=n, m=m) for n, m in ((0, 1), (2, 3), (20, 1))] + [J(1, n=8, **T)]
     + [J(0, n=20, m=20, free=3), J(0, n=20, m=21, free=3), J(1, n=14, free=3), J(2, n=30, free=3), J(3, n=30, m=20, free=2)])

# ---------------------------------------------------------------- containers; t is the element type: 0 int, 1 Str, 2 List<int>
prop("L01", covers=["element", "refused", "inserted", "refused insertion", "removed", "refused removal", "erased", "refused erasure", "concatenated", "history"],
     bounds="lists of any int elements of 0 to 4 elements, of strings and of lists with up to 3 elements; every int as position and bound; histories of 2 operations out of six on lists of up to 2 elements (thorough: 3 operations); lists of 8 to 40 elements of which 1 to 3 are any",
     jobs=[J(m, n=n) for m in (0, 1, 2, 3) for n in (0, 1, 2, 4)] + [J(m, n=n, t=t) for m in (0, 1, 2, 3) for n, t in ((3, 1), (2, 2))]
     + [J(4, n=n, m=m, t=t) for n, m, t in ((1, 0, 0), (2, 2, 0), (3, 4, 0), (2, 1, 1), (1, 2, 2), (4, 3, 0))] + [J(5, n=n, k=2, t=t) for n, t in ((0, 0), (1, 0), (2, 0), (2, 1), (1, 2))]
     + [J(5, n=n, k=3, t=t, parts=4, **T) for n, t in ((2, 0), (1, 1), (2, 2))] + [J(m, n=9, **T) for m in (0, 1, 2, 3)]
     + [J(m, n=20, free=2) for m in (0, 1, 2)] + [J(3, n=12, free=1), J(4, n=20, m=20, free=2), J(4, n=40, m=3, free=2), J(5, n=8, k=2, free=1), J(1, n=17, t=1, free=1), J(3, n=20, free=2, **T)])
prop("L02", covers=["slice", "refused slice", "rotated", "repeated", "refused repetition"], bounds="lists of up to 4 elements (thorough: 6) of any int, string or list; every int as slice bound, step and rotation; repetitions up to 4, or too many to have a size; lists of 9 to 33 elements of which 3 are any, up to 40 times",
     jobs=[J(0, n=n) for n in (0, 1, 2, 3, 4)] + [J(0, n=2, t=1), J(0, n=2, t=2), J(0, n=5, step=1), J(0, n=5, step=-1)] + [J(1, n=n) for n in (0, 1, 2, 3, 4, 5, 7)] + [J(1, n=3, t=1), J(1, n=3, t=2)]
     + [J(m, n=n, t=t) for m in (2, 3) for n, t in ((0, 0), (1, 0), (2, 1), (4, 0), (5, 0), (3, 2))] + [J(4, n=n, t=t) for n, t in ((0, 0), (1, 0), (2, 0), (3, 0), (2, 1), (2, 2))] + [J(0, n=5, **T), J(0, n=6, **T), J(1, n=12, **T)]
     + [J(0, n=20, step=1, free=2), J(0, n=20, step=-1, free=2), J(1, n=33, free=2), J(2, n=33, free=2), J(3, n=33, free=2), J(4, n=9, max=20, free=2), J(4, n=1, max=40)])
prop("L03", covers=["no range", "unique", "filtered"], bounds="lists of up to 4 elements (thorough: 6) of any int, string or list, any element looked for, every int as start and stop; lists of 12 and 20 elements of which one is any",
     jobs=[J(m, n=n, t=t) for m in range(5) for n, t in ((0, 0), (1, 0), (2, 1), (3, 0), (4, 0), (2, 2)) if (m, n) != (2, 0)] + [J(m, n=n, **T) for m in range(5) for n in (5, 6)]
     + [J(m, n=20, free=1) for m in (1, 2, 3, 4)] + [J(0, n=12, t=1, free=1), J(0, n=12, t=1, free=2, **T)])
prop("L04", covers=["sorted"], bounds="lists of up to 4 elements with any int keys; 20 elements of 4 keys of which 6 are any, three orders (thorough: 6 elements with any keys, 33 elements)",
     jobs=[J(m, n=n) for m in (0, 1, 2) for n in (0, 1, 2, 4)] + [J(m, n=20, keys=4, free=3) for m in (0, 1, 2)] + [J(3, n=n) for n in (0, 1, 2, 3, 4)] + [J(m, n=5, **T) for m in (0, 1, 2)] + [J(m, n=33, keys=3, free=4, **T) for m in (0, 1, 2)])
prop("L05", covers=["equal", "different"], bounds="pairs of lists of up to 3 elements (thorough: 5) of any int, string or list; lists of 20 elements of which 3 are any",
     jobs=[J(0, na=a, nb=b, t=t) for a, b, t in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (2, 2, 0), (2, 3, 0), (3, 3, 0), (3, 1, 0), (2, 2, 1), (1, 2, 1), (2, 2, 2), (1, 2, 2))] + [J(0, na=5, nb=5, **T), J(0, na=4, nb=5, **T), J(0, na=3, nb=3, t=1, **T)]
     + [J(0, na=20, nb=20, free=2), J(0, na=20, nb=21, free=2), J(0, na=9, nb=9, t=1, free=2)])
prop("D01", covers=["element", "refused", "ends", "empty", "history", "both ends"], bounds="deques of up to 4 elements of any int, string or list, every int as index; histories of 3 operations out of nine (thorough: 4); 200 elements pushed and popped at both ends; deques of 9 and 20 elements of which up to 3 are any",
     jobs=[J(0, n=n, t=t) for n, t in ((0, 0), (1, 0), (3, 0), (4, 0), (2, 1), (2, 2))] + [J(1, n=n, t=t) for n, t in ((0, 0), (1, 0), (3, 0), (2, 1), (2, 2), (0, 1))] + [J(2, n=n, k=k, t=t) for n, k, t in ((0, 3, 0), (1, 3, 0), (3, 2, 0), (1, 2, 1), (1, 2, 2))]
     + [J(3, n=200), J(3, n=40, t=1)] + [J(2, n=2, k=4, parts=4, **T)]
     + [J(0, n=20, free=2), J(1, n=20, free=2), J(2, n=9, k=2, free=1)])
prop("D02", covers=["rotated", "reversed", "compared"], bounds="deques of up to 5 elements of any int, string or list; every int as rotation; pairs of deques of up to 3 elements; deques of 20, 33 and 70 elements of which up to 3 are any",
     jobs=[J(0, n=n, t=t) for n, t in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (7, 0), (3, 1), (2, 2))] + [J(m, n=n, t=t) for m in (1, 2) for n, t in ((0, 0), (1, 0), (4, 0), (5, 0), (3, 1), (3, 2))]
     + [J(3, n=n, m=m, t=t) for n, m, t in ((0, 0, 0), (1, 1, 0), (2, 2, 0), (2, 3, 0), (3, 3, 0), (3, 2, 0), (0, 1, 0), (2, 2, 1), (1, 2, 2))] + [J(0, n=12, **T), J(3, n=4, m=4, **T)]
     + [J(m, n=33, free=2) for m in (0, 1, 2)] + [J(0, n=70, free=1), J(3, n=20, m=20, free=2), J(3, n=20, m=21, free=2)])
prop("T01", covers=["algebra", "laws"], bounds="pairs of sets of up to 3 elements (thorough: 4) of any int, string or list, with every coincidence; pairs of sets of 3 elements each in 0..3 (0..2 for the operators); laws on three sets of 2, 1 and 1 elements; sets of 7 to 10 elements of which one is any",
     jobs=[J(m, na=a, nb=b, t=t) for m in (0, 1) for a, b, t in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0), (2, 1, 0), (2, 2, 0), (1, 3, 0), (2, 1, 1), (1, 2, 1), (1, 1, 2))] + [J(2, na=1, nb=1, k=1), J(2, na=2, nb=1, k=1), J(2, na=0, nb=2, k=1)]
     + [J(m, na=3, nb=3, parts=4, **T) for m in (0, 1)] + [J(m, na=3, nb=2, **T) for m in (0, 1)]
     + [J(1, na=10, nb=10, free=1), J(1, na=3, nb=3, range=4), J(0, na=3, nb=3, range=3), J(0, na=8, nb=8, free=1), J(0, na=7, nb=7, t=1, free=1)])
prop("T02", covers=["history"], bounds="histories of 3 operations from the empty set, 2 from sets of up to 1 element and 1 from sets of up to 3 elements (thorough: 3 from 1 element), elements any int, string or list; one operation on sets of 7 (thorough: 12) elements of which one is any",
     jobs=[J(0, n=n, k=k, t=t) for n, k, t in ((0, 2, 0), (1, 2, 0), (2, 1, 0), (3, 1, 0), (0, 1, 0), (1, 1, 1), (2, 1, 1), (1, 1, 2))] + [J(0, n=2, k=2, parts=4, depth=4, **T), J(0, n=0, k=3, parts=4, depth=4, **T)]
     + [J(0, n=7, k=1, free=1), J(0, n=7, k=1, t=1, free=1), J(0, n=12, k=1, free=1, **T)])
prop("M01", covers=["history"], bounds="histories of 2 operations from dictionaries of up to 1 pair and 1 operation from up to 3 pairs (thorough: 3 from 0, 2 from 2), keys any int or string, values any int or list; one operation on dictionaries of 7 (thorough: 12) pairs of which one key is any",
     jobs=[J(0, n=n, k=k, t=t) for n, k, t in ((0, 1, 0), (0, 2, 0), (1, 2, 0), (2, 1, 0), (3, 1, 0), (1, 1, 1), (2, 1, 1))] + [J(0, n=2, k=2, parts=4, depth=4, **T), J(0, n=0, k=3, parts=4, depth=4, **T)]
     + [J(0, n=7, k=1, free=1), J(0, n=7, k=1, t=1, free=1), J(0, n=12, k=1, free=1, **T)])
prop("M02", covers=["views"], bounds="dictionaries of up to 3 pairs with any int keys and values, pairs of dictionaries of up to 2 pairs (thorough: 4 and 3); dictionaries of 10 pairs of which one is any",
     jobs=[J(m, n=n) for m in (0, 1) for n in (0, 1, 2, 3)] + [J(2, n=n, m=m) for n, m in ((0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (1, 2))] + [J(m, n=4, **T) for m in (0, 1)] + [J(2, n=3, m=3, parts=4, **T)]
     + [J(0, n=10, free=1), J(1, n=10, free=1), J(0, n=8, free=2, **T)])

# ---------------------------------------------------------------- fractions
prop("F01", covers=["canonical", "out of range", "zero denominator", "whole", "double"], bounds="the double value of twelve numerators over nine denominators; every numerator over the denominators -7..7 and 12, numerators near the ends and zero over denominators at the ends of int; every denominator below the numerators 6, -4, 1, 0, 12; every int as a fraction",
     outside="the full cross product of numerators and denominators", jobs=[J(0, p=p) for p in (-7, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 12)] + [J(0, p=p, e=e) for p in (101, 102, 103, 104, 105, 106) for e in (0, 1, 2, 6)] + [J(1, m=m) for m in (6, -4, 1, 12, -1)] + [J(2), J(3)]
     + [J(0, p=p, **T) for p in (8, 9, 10, 15, 30, 60, -30)] + [J(1, m=m, **T) for m in (30, 7, -60)])
_F2 = ((1, 1, 1, 1), (1, 1, -3, 3), (2, 3, 1, 6), (2, 3, 7, 6), (3, 4, -5, 12), (4, 6, 10, 12), (3, 4, 101, 12), (1, 7, 106, 7), (5, 1, 0, 5))
prop("F02", covers=["result", "out of range", "by zero"], bounds="first operand: every numerator over the denominators 1 to 5; second operand: nine fixed fractions, among them the ends of int, and every whole number; sum and difference with every numerator on both sides over 2/3",
     outside="products and quotients of two unbounded numerators",
     jobs=[J(0, op=op, p=p, q=q, m=m, w=w) for op in (0, 1, 2) for p, q, m, w in _F2] + [J(0, op=3, p=p, q=q, m=m, w=abs(p * q * m) if 0 < abs(m) < 100 else p * q) for p, q, m, w in _F2 if abs(m) < 100] + [J(0, op=4, p=p, w=p) for p in (1, 2, 3, 4, 6)]
     + [J(0, op=op, p=p, q=q, w=p * q, free=1) for op in (0, 1) for p, q in ((1, 1), (1, 2), (2, 3))] + [J(0, op=op, p=p, q=q, w=p * q, free=1, **T) for op in (0, 1) for p, q in ((3, 4), (2, 2), (4, 6))])
prop("F03", covers=["equal", "different", "half"], bounds="pairs with every numerator over the denominators 1 to 6 and near the ends of int over the largest denominators",
     jobs=[J(0, p=p, q=q) for p, q in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 3), (4, 6), (6, 4), (105, 106), (106, 106), (106, 1))] + [J(1)] + [J(0, p=p, q=q, **T) for p, q in ((5, 7), (9, 6), (8, 12))])
prop("F04", covers=["remainder", "by zero", "gcd", "with zero", "lcm"], bounds="first operand: every numerator over 1 to 4; second operand: 7, 4, 6, 0, 5/3, -5/3, 10/6; numerators -12..12 over six pairs of denominators from 2 to 2147483647",
     jobs=[J(0, p=p, q=q, m=m, w=w) for p, q, m, w in ((1, 1, 7, 7), (2, 3, 5, 10), (2, 3, -5, 30), (4, 6, 10, 120), (3, 1, 0, 3), (1, 1, -1, 2))] + [J(1, p=p, q=q, m=m, w=w) for p, q, m, w in ((2, 3, 5, 10), (2, 3, 5, 30), (1, 1, 4, 4), (1, 1, 6, 6), (1, 1, 0, 6), (4, 6, 10, 60), (1, 1, -6, 6))]
     + [J(2, p=p, q=q, m=m, w=w, l=100000) for p, q, m, w in ((1, 1, 6, 6), (1, 1, 4, 4), (1, 1, 0, 6))] + [J(2, p=2, q=3, m=5, w=10, l=10000)] + [J(2, p=1, q=1, m=6, w=6), J(2, p=1, q=2, m=5, w=10)]
     + [J(k, p=p, q=q, m=m, w=13, l=12) for k in (0, 1, 2) for p, q, m in ((65537, 65539, 3), (46341, 46340, 7), (100000, 75000, 105), (2, 2147483647, 5), (65536, 32768, 9), (2147483647, 2147483647, 4))])
prop("F05", covers=["round trip", "accepted", "refused", "out of range"], bounds="every text of up to 3 characters (thorough: 4), texts of 4 and 5 (thorough: 6) characters of an alphabet of 8; the printed forms of all fractions with numerators -12..12 over 1, 6, 8; numbers of 3, 9, 10 digits with denominators 1 and 6; four right texts with any one byte replaced or inserted",
     jobs=[J(0, p=1, l=9), J(0, p=6, l=12), J(0, p=8, l=12)] + [J(1, n=n) for n in (0, 1, 2, 3)] + [J(1, n=n, few=1) for n in (4, 5)] + [J(1, n=6, few=1, **T), J(1, n=4, parts=4, **T)] + [J(2, n=n, m=m) for n, m in ((3, 1), (9, 1), (10, 1), (11, 1), (2, 6), (9, 6))]
     + [J(1, n=0, near=k) for k in (1, 2, 3, 4)])

# ---------------------------------------------------------------- complex numbers, tuples, printing
prop("X01", covers=["arithmetic", "unary", "quotient", "by zero", "polar", "power", "no power"], bounds="triangles scaled by 1e200 and 1e-200; every pair of numbers with whole parts of up to 2^20 (2^40 for the unary forms); quotients by 1+j, 2, 3-4j, 5j; distance and angle of five families of triangles up to 40; powers of bases -4..4 with exponents -3..6, and complex exponents -2..2",
     outside="parts that are not whole numbers, rounding, infinities and NaN",
     jobs=[J(m) for m in (0, 1, 3, 4, 5)] + [J(2, c=c, d=d) for c, d in ((1, 1), (2, 0), (3, -4), (0, 5), (0, 0))] + [J(2, c=c, d=d, **T) for c, d in ((-1, 0), (0, -1), (2, -2), (7, 1), (-4, 4))])
prop("X02", covers=["same", "far", "equal", "different", "zero", "computed", "close", "both"], bounds="every double but NaN as one part; both parts off by ten multiples of a sixteenth of the tolerance; whole parts of up to 2^40; the four zeros; sums, products and quotients of whole numbers -9..9; 2^-1 to 2^-60",
     outside="NaN", jobs=[J(m) for m in (0, 1, 2, 3, 4, 6)] + [J(5, known="hash-within-tolerance")])
prop("X03", covers=["round trip", "accepted", "refused", "exponent"], bounds="every text of up to 4 characters without an exponent, texts of 5 (thorough: 6) characters of an alphabet of 8; the printed forms of the parts -9..9 in quarters and halves; eleven literals with exponents; four right texts with any one byte replaced or inserted",
     outside="rounding of long decimal numbers", jobs=[J(0, l=9, half=1), J(0, l=3), J(2)] + [J(1, n=n) for n in (0, 1, 2, 3)] + [J(1, n=n, few=1) for n in (4, 5)] + [J(1, n=4), J(1, n=6, few=1, parts=2, **T)]
     + [J(1, n=0, near=k) for k in (1, 2, 3, 4)])
prop("P01", covers=["whole", "mixed", "copied"], bounds="tuples of up to 4 elements: any ints, characters, strings, lists", jobs=[J(m) for m in (0, 1, 2)])
prop("E01", covers=["integer", "fraction", "sequence", "associative", "text and complex"], bounds="integers of up to 3 digits, whole fractions of any int, sequences of 0 to 3 elements and any positions, dictionaries of two pairs and any keys, texts of up to 3 bytes and any positions",
     jobs=[J(0, na=n) for n in (0, 1, 2, 3)] + [J(1)] + [J(2, n=n) for n in (0, 1, 2, 3)] + [J(3)] + [J(4, n=n) for n in (0, 1, 3)])
prop("V01", covers=["history"], bounds="three objects of each of nine types and any history of two (thorough: three) of eight operations on them, contents determined by any number",
     jobs=[J(0, t=t) for t in range(9)] + [J(0, t=t, k=3, parts=4, **T) for t in range(9)])
prop("O01", covers=["sequence", "ordered", "nested", "tuple", "several", "state"], bounds="containers of up to 3 numbers of up to 3 digits and either sign, strings of up to 4 bytes, fixed shapes of nesting, every width of one number (1, 4 and 9 digits)",
     jobs=[J(0, n=n, digits=d) for n, d in ((0, 1), (1, 1), (2, 2), (3, 3))] + [J(1, n=n, digits=d) for n, d in ((0, 1), (1, 3), (2, 2), (3, 1))] + [J(2, n=n) for n in (0, 2, 4)] + [J(3, digits=d) for d in (1, 3)] + [J(4, digits=d) for d in (1, 4, 9)] + [J(5, digits=d) for d in (1, 4)])

# ---------------------------------------------------------------- undefined behaviour: every harness again, as strict jobs
# jobs whose paths multiply with the checks, left to the thorough tier or out
_LATE = set("""
     F01(mode=1,m=12) F03(mode=0,p=2,q=3) F03(mode=0,p=3,q=3) F03(mode=0,p=4,q=6) F03(mode=0,p=6,q=4) F04(mode=1,p=1,q=1,m=-6,w=6) F04(mode=1,p=1,q=1,m=6,w=6) I02(mode=0,na=7,nb=25) I02(mode=0,na=8,nb=8)
     I02(mode=1,na=7,nb=25) I02(mode=1,na=8,nb=8) I02(mode=2,na=17) I02(mode=2,na=30) I02(mode=3,zeros=17) I02(mode=3,zeros=30) I03(mode=0,na=7,nb=7) I04(mode=0,na=2,nb=1,signs=0)
     I04(mode=0,na=2,nb=1,signs=1) I04(mode=0,na=2,nb=1,signs=2) I04(mode=0,na=2,nb=1,signs=3) I04(mode=0,na=2,nb=2) I04(mode=0,na=3,nb=3,signs=3) I04(mode=3,nb=8,q=2,signs=2) I04(mode=3,nb=8,q=5,signs=1)
     I06(mode=0,na=1,nb=1) I06(mode=1,lo=2,hi=3,nb=1,signs=1) I06(mode=1,lo=4,hi=5,nb=1,signs=2) I06(mode=4,na=1) I08(mode=0,na=1,e=5) I08(mode=0,na=2,e=3) I08(mode=0,na=3,e=2) I08(mode=1,m=-10,na=2,e=1)
     I08(mode=1,m=25,na=1,e=5) I08(mode=1,m=36,na=1,e=3) I08(mode=1,m=7,na=1,e=2) I08(mode=2) I08(mode=6,b=1,e=5,nb=2) I08(mode=6,b=2,e=3,nb=2) I08(mode=6,b=6,e=2,nb=2) I08(mode=6,b=6,e=3,nb=2)
     I08(mode=6,b=7,e=1,nb=2) I09(mode=6) I10(mode=3,k=2) L01(mode=3,n=12,free=1) L02(mode=0,n=20,step=-1,free=2) L02(mode=0,n=20,step=1,free=2) L02(mode=0,n=4) L02(mode=4,n=9,max=20,free=2)
     L03(mode=0,n=12,t=1,free=1) L03(mode=0,n=4,t=0) L03(mode=2,n=20,free=1) M01(mode=0,n=1,k=2,t=0) M01(mode=0,n=3,k=1,t=0) M01(mode=0,n=7,k=1,free=1) M01(mode=0,n=7,k=1,t=1,free=1)
     S01(mode=1,n=20,free=2,step=-1) S01(mode=1,n=20,free=2,step=1) S01(mode=1,n=4) S02(mode=0,n=10,m=2,free=1) S02(mode=1,n=20,m=2,free=1) S03(mode=2,n=8,m=3,k=2,free=1) S05(mode=2,n=20,free=2)
     S05(mode=3,n=9,max=20,free=2) S06(mode=0,n=2,base=36) S06(mode=0,n=3,base=10) S06(mode=0,n=3,base=16) S06(mode=2) S06(mode=4,n=25,base=36,pat=2) S07(mode=0,n=3) S07(mode=1,i=2,f=2,x=0,sg=1,blanks=3)
     S07(mode=2,x=4) T01(mode=0,na=3,nb=3,range=3) T01(mode=0,na=8,nb=8,free=1) T01(mode=1,na=3,nb=3,range=4) T02(mode=0,n=1,k=2,t=0) T02(mode=0,n=3,k=1,t=0) T02(mode=0,n=7,k=1,free=1)
     T02(mode=0,n=7,k=1,t=1,free=1) X03(mode=1,n=0,near=1) X03(mode=1,n=0,near=3) X03(mode=1,n=0,near=4) X03(mode=1,n=4) X03(mode=1,n=4,few=1) X03(mode=1,n=5,few=1)""".split())
_OUT = set("""
     S04(mode=0,n=20) S06(mode=3,n=5) S06(mode=3,n=9) S07(mode=1,i=0,f=3,x=2,sg=0,blanks=0) S07(mode=1,i=1,f=2,x=2,sg=0,blanks=1) S07(mode=1,i=3,f=0,x=3,sg=2,blanks=0) S07(mode=2,x=10) S07(mode=2,x=20)
     S07(mode=2,x=5)""".split())


def _strict():
    r = []
    for pid in sorted(PROPS):
        for j in PROPS[pid]["jobs"]:
            n = pid + "(" + ",".join(f"{k}={v}" for k, v in j.items() if isinstance(v, int) and k not in ("parts", "depth", "thorough", "strict", "weight")) + ")"
            if not (j.get("thorough") or j.get("strict") or j.get("known") or n in _OUT):
                r.append(dict(j, harness=PROPS[pid]["harness"], strict=True, thorough=n in _LATE, samples=1))
    return r


_U = _strict()
prop("U01", harness="I01.cpp", ub=True, budget=420, jobs=_U,
     bounds="the operands, histories and texts of the other properties' quick jobs, but for the most expensive ones (thorough tier)",
     outside="texts of the decimal parser with exponents beyond 19, base conversion of 5 and 9 free digits")
