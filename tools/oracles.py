"""What each property is decided against (the table in DESIGN.md)."""
ORACLE = dict(
I01="the grammar of literals, written as a loop over the bytes; the printed form against the literal without its leading zeros; ints against their decimal expansion",
I02="schoolbook addition and subtraction on digit arrays (harness/h.h, `Num`), independent of the library's chunked storage; compound forms, steps and laws on three operands",
I03="the product as one 128-bit term of the two operands' values (up to 38 digits), and the column sums of schoolbook multiplication",
I04="the defining equation a = q b + r with |r| < |b| and the sign rules, on values; for long operands dividends rebuilt as b q + r and the quotient compared with q",
I05="comparison of digit arrays, and of machine integers",
I06="Euclid's algorithm on machine integers; lcm by its definition; 64-bit factorials; trial division",
I07="the defining inequalities r r <= n < (r + 1)(r + 1) and base^k <= n < base^(k + 1)",
I08="powers and remainders of 64-bit machine arithmetic",
I09="the value that the digits spell, as a 128-bit integer, cast to the type",
I10="machine integers run through the same history; copies taken before each operation",
I11="the random source is an arbitrary value of the range per draw (a stub in both builds); digits and count of the result",
S01="Python's slice and index definitions on a plain string, with 64-bit positions",
S02="the definition of an occurrence, position by position",
S03="a left-to-right scan for occurrences, building the expected text or parts; joining split parts gives the string back",
S04="byte-by-byte definition of ASCII case and of the stripped range",
S05="index arithmetic: the character at i must be found at (i + n) mod size; the remainder of every int is split symbolically",
S06="grammar of base-b literals and the value by Horner's rule; long texts: the value through the library's own literal of the same number in decimal",
S07="an independent parser of mantissa and exponent; the value m * 10^e up to a relative 1e-12",
S08="memcmp order; a scanner for brace pairs; line splitting; copies compared after changing the original",
L01="a std::vector put through the same operations", L02="Python's slice definition, index arithmetic modulo size", L03="positions found by a plain loop over a std::vector",
L04="ascending, a permutation (every key and its original position once), equal keys in increasing original position", L05="lexicographic comparison of std::vectors",
D01="a std::vector put through the same operations", D02="index arithmetic modulo size; lexicographic comparison of std::vectors",
T01="membership tests on std::vectors, element by element, for every pattern of coincidence", T02="a std::vector of distinct elements put through the same history",
M01="a std::vector of pairs put through the same history", M02="the vector of pairs the dictionary was built from",
F01="value and gcd of machine integers (64 bits); the quotient of two doubles", F02="cross products in 64-bit arithmetic, reduced by the exact gcd", F03="cross products in 64-bit arithmetic",
F04="the defining equation on a common denominator", F05="a grammar for the text, and the value by Horner's rule; round trip of printed forms",
X01="the textbook formulas on 64-bit integers; triangles with known sides; |z|, arg z and z^k from repeated multiplication", X02="comparison of the parts' differences with the tolerance, in IEEE doubles as terms of the solver's floating-point theory; equal => equal hash",
X03="a grammar for real, imaginary and complex literals and the spelled value", P01="the values the tuple was built from", V01="a number and a count for each object, from which its contents are made afresh", E01="the operands' contents before the operation, and the conditions of refusal",
 O01="the documented form, assembled from the elements' own printed forms",
U01="undefined behaviour is made an assertion by the compiler and the library: UBSan's trapping checks (signed overflow, shifts, division, conversions, bounds, null, alignment) and libstdc++'s own precondition assertions (_GLIBCXX_ASSERTIONS); memory errors by the executor's object model",
)
# planted bugs whose result is not simply 'caught'
CAUGHT = dict()
