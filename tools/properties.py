"""The properties, in the order of properties.jsonl."""
NOT_APPLICABLE = []
PROPERTIES = []


def P(id, title, statement, forall, why, files, mech, over=("inputs",), **k):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech, over=list(over), **k))


# ---------------------------------------------------------------- integers
P("I01", "Integer literals: exact acceptance and canonical value",
  "An integer can be built from text exactly when the text is an optional sign followed by one or more decimal digits, from a character string or a stream token; any other text is refused with an error and leaves the target unchanged. "
  "Printing gives the canonical decimal form (no leading zeros, no minus sign on zero), so reading it back gives the same integer; an integer built from a machine int has exactly that value, including the smallest int. "
  "The digit count, the sign tests and the parity tests agree with that value.",
  "all byte strings up to the bound as literals and stream input, all machine ints, long literals with any digits",
  "Tests try a dozen literals; one wrong character class, sign rule or the one int that cannot be negated is outside any sample.",
  ["int.hpp"], [("literal test and constructors", "int.hpp:is_integer, Int(const char*), Int(int)"), ("printing and reading", "int.hpp:operator<<, operator>>")])
P("I02", "Integer addition and subtraction are exact",
  "Addition, subtraction, negation, absolute value, increment and decrement return the mathematically exact integer for operands of any length and sign, with carries and borrows propagating over the whole number. "
  "Compound forms agree with the binary forms, results are canonical (zero has one representation), operands are not modified, and an operand may be the target itself.",
  "all operands within the digit bounds, all sign combinations, carry and borrow chains, aliased operands",
  "Tests add about twenty pairs; carries over every digit pattern, borrow past a zero run, and self-assignment forms are not sampled.",
  ["int.hpp"], [("addition", "int.hpp:operator+=(const Int&)"), ("subtraction", "int.hpp:operator-=(const Int&)"), ("step", "int.hpp:operator++, operator--, abs_inc, abs_dec")])
P("I03", "Integer multiplication is exact",
  "The product of two integers is the mathematically exact integer for operands of any length and sign; the compound form agrees with the binary form, also when both operands are the same object. "
  "A product with zero is zero, and the operands are unchanged.",
  "all operands within the digit bounds, all sign combinations",
  "Tests multiply a few pairs; a lost carry in one column needs particular digits.",
  ["int.hpp"], [("multiplication", "int.hpp:operator*=(const Int&)")])
P("I04", "Integer division truncates and matches the remainder",
  "For b != 0, a / b is the quotient truncated towards zero and a % b the remainder with the sign of a, so a == (a / b) * b + a % b and |a % b| < |b|. "
  "A zero divisor is refused with an error and leaves the operands unchanged; compound forms agree with the binary forms, also on one and the same object.",
  "all operands within the digit bounds, all sign combinations, long divisors and quotients",
  "Tests divide a few pairs; the failing quotient digit or remainder sign depends on the relation of all digits.",
  ["int.hpp"], [("division", "int.hpp:operator/=(const Int&)"), ("remainder", "int.hpp:operator%=(const Int&)")])
P("I05", "Integer comparison is the order of the integers",
  "Equality and ordering of integers agree with the mathematical order for every pair of values, regardless of how the values were computed. "
  "Exactly one of a < b, a == b, a > b holds, and equal integers have equal hashes.",
  "all pairs within the digit bounds and signs; single differing digits at any position of long numbers",
  "Tests compare a handful of values; a comparison that looks at the wrong end or ignores a sign case needs particular pairs.",
  ["int.hpp"], [("comparison", "int.hpp:operator<=>, operator==, abs_cmp"), ("hash", "int.hpp:std::hash<Int>")])
P("I06", "gcd, lcm, factorial and primality follow their definitions",
  "gcd is the non-negative greatest common divisor (zero only for two zeros) and lcm the non-negative least common multiple, with gcd * lcm == |a * b|; both are symmetric. "
  "The factorial of n is the product 1..n and is refused for negative n; the primality test is exact and the next prime is the least prime greater than the number.",
  "all pairs within the digit bounds and signs; all n up to the bound",
  "Tests use a few values; sign cases, zero cases and pairs with unusual quotient sequences are not covered.",
  ["int.hpp", "utility.hpp"], [("gcd", "utility.hpp:gcd"), ("lcm", "int.hpp:lcm"), ("factorial, primes", "int.hpp:factorial, is_prime, next_prime")])
P("I07", "Integer square root and logarithm are exact floors",
  "sqrt(n) is the greatest r with r * r <= n and log(n, base) the greatest k with base**k <= n, for numbers of any length including perfect powers and their neighbours. "
  "Arguments outside the domain (negative radicand, non-positive argument, base below two) are refused with an error.",
  "all numbers within the digit bounds; neighbours of squares and powers up to 24 digits",
  "Off-by-one results and non-termination appear only next to particular squares and powers.",
  ["int.hpp"], [("square root", "int.hpp:sqrt"), ("logarithm", "int.hpp:log")])
P("I08", "Integer power and modular power are exact",
  "pow(base, exp) is the exact power; with a non-zero modulus the result is the remainder of that power divided by the modulus, with the remainder's usual sign. "
  "A negative exponent truncates to zero except for bases 1 and -1, and is refused for base zero; x ** 0 is 1.",
  "all bases and moduli within the digit bounds, exponents up to 19, all signs",
  "Tests raise a few numbers; exponent bit patterns, moduli of one and negative operands are not covered.",
  ["int.hpp"], [("power", "int.hpp:pow")])
P("I09", "Conversion to machine integers is exact",
  "Converting an integer to a machine integer type gives the same value for every value the type can represent, signed or unsigned, including its extremes. "
  "Converting a machine int to an integer and back is the identity.",
  "all values of six machine integer types",
  "The type has more values than any test can list; the extremes overflow intermediate results.",
  ["int.hpp"], [("conversion", "int.hpp:to_integer, Int(int)")])
P("I10", "Integers are values: copies, moves and self-operations",
  "Copies are independent of the original, operators do not modify their operands, and any history of operations gives the value of the same history on mathematical integers. "
  "A moved-from integer is zero and usable, and operations whose operands are one and the same object give the same result as with a copy.",
  "all sequences of operations up to the bound from any starting values",
  "Tests check single operations on fresh values; state left behind by one operation and read by the next is not observed.",
  ["int.hpp"], [("value semantics", "int.hpp:copy and move members, compound operators")], over=("inputs", "histories"))
P("I11", "Random integers have the requested number of digits",
  "random(n) returns a non-negative canonical integer with exactly n decimal digits, whatever the random source delivers (n = 0 gives zero); without an argument it has at most 4300 digits. "
  "Any other negative digit count is refused with an error.",
  "all outcomes of the random source for the digit counts within the bound",
  "The outcome that breaks the digit count (leading zeros) has small probability.",
  ["int.hpp"], [("random", "int.hpp:random")], over=("inputs", "histories"))

# ---------------------------------------------------------------- strings
P("S01", "String indexing and slicing for any index",
  "For every int i, indexing a string of size n returns the character at i (from the end for negative i) when -n <= i < n and is refused with an error otherwise. "
  "A slice holds exactly the characters start, start + step, ... before stop, for any bounds inside the string and any non-zero step of either sign, however large; other bounds and a zero step are refused.",
  "all strings within the length bound, all int triples",
  "Tests take a dozen slices; steps that jump past the end, negative steps with negative bounds and extreme ints are not sampled.",
  ["str.hpp", "utility.hpp"], [("index", "str.hpp:operator[]"), ("slice", "str.hpp:slice"), ("bounds", "utility.hpp:check_bounds")])
P("S02", "String search agrees with the definition of an occurrence",
  "find returns the first position at which the pattern occurs completely inside the given range, and -1 when there is none or the range is not a forward range of the string (start negative, beyond the end, or after stop). "
  "contains agrees with find, count is the number of non-overlapping occurrences from the left (size + 1 for the empty pattern), and starts_with and ends_with compare the whole prefix or suffix.",
  "all strings and patterns within the length bounds, all int ranges",
  "Self-overlapping patterns, partial matches at the end and empty ranges depend on particular contents.",
  ["str.hpp"], [("search", "str.hpp:find, contains, count, starts_with, ends_with")])
P("S03", "Replace, split and join follow the occurrences",
  "replace exchanges every non-overlapping occurrence from the left and keeps all other characters; replacing the empty string puts the new text before, between and after all characters. "
  "split returns the parts between the occurrences in order (all of them when keep_empty is set, otherwise the non-empty ones), an empty separator is refused, and joining all parts with the separator gives the string back.",
  "all strings, patterns and replacements within the length bounds",
  "Adjacent, leading, trailing and overlapping occurrences multiply; tests cover a few of them.",
  ["str.hpp"], [("replace", "str.hpp:replace"), ("split", "str.hpp:split"), ("join", "str.hpp:join")])
P("S04", "Case conversion and stripping touch only what they should",
  "lower and upper convert the ASCII letters and leave every other byte as it is. "
  "strip removes the blanks (bytes up to 0x20) or the given character at both ends and nothing else; the original string is unchanged.",
  "all strings within the length bound, all byte values, all characters to strip",
  "Tests use letters and blanks; digits, punctuation and bytes above 0x7f are not covered.",
  ["str.hpp"], [("case", "str.hpp:lower, upper"), ("strip", "str.hpp:strip")])
P("S05", "String rotation, reversal, erasure, concatenation and repetition",
  "Rotating by n (any int, either direction) moves the character at i to (i + n) mod size; reverse, concatenation and repetition give exactly the characters of their definition, also for a string and itself. "
  "erase removes exactly the range [start, stop) and refuses what is not a range of the string; a negative number of repetitions, or one whose result has no size, is refused.",
  "all strings within the length bound, all ints as rotation, bounds and times",
  "Extreme rotations and bounds overflow or read outside the string; tests use small ones.",
  ["str.hpp"], [("rotate", "str.hpp:operator<<, operator>>"), ("reverse", "str.hpp:reverse"), ("erase", "str.hpp:erase"), ("concatenate, repeat", "str.hpp:operator+, operator*")])
P("S06", "Text to integer in any base is exact",
  "to_integer(base) accepts exactly an optional sign and one or more digits of the base (letters in either case) with blanks around, for bases 2 to 36, and returns the integer it spells. "
  "Any other text or base is refused with an error.",
  "all texts within the length bound, all bases",
  "The digit sets of 35 bases, signs and blanks give far more texts than tests list.",
  ["str.hpp", "int.hpp"], [("state machine", "str.hpp:to_integer, get_event, char_to_integer")])
P("S07", "Text to decimal: exact acceptance and value",
  "to_decimal accepts exactly a decimal number (optional sign, digits with an optional point, optional exponent, blanks around) or one of the documented names of infinity and NaN, and refuses everything else with an error. "
  "The value is the number that the text spells, correct to rounding, HUGE_VAL when it is too big; only the NaN names give NaN.",
  "all texts within the length bound, all digits of structured numbers, exponents of any length",
  "Exponent overflow, missing digits around the point and long digit strings are single points in a large grammar.",
  ["str.hpp"], [("state machine", "str.hpp:to_decimal, get_event")])
P("S08", "Strings compare, hash, format, print and copy as values",
  "The order is lexicographic by bytes, equality is equality of the characters, and equal strings hash equally. "
  "format puts the arguments into the brace pairs in order and keeps all other text; a string prints between quotes, reading takes one line, and copies and moves keep the value and are independent.",
  "all strings within the length bounds",
  "Unpaired braces, bytes above 0x7f and prefixes of each other are not sampled.",
  ["str.hpp"], [("compare, hash", "str.hpp:operator<=>, std::hash<Str>"), ("format", "str.hpp:format, format_helper"), ("print, read", "str.hpp:operator<<, operator>>")])

# ---------------------------------------------------------------- containers
P("L01", "List: elements, insertion and removal at any position",
  "For every int i, access and removal work exactly for -n <= i < n and insertion for -n <= i <= n (negative positions count from the end), each affecting the one position it names; erase(start, stop) removes exactly that range of the list and refuses anything else. "
  "Refused operations report an error and leave the list as it was; appending an element or a list (also the list itself, or one of its own elements) keeps all elements in order. "
  "After any sequence of operations iteration in both directions gives the elements of that history.",
  "all lists within the length bound of ints, strings and lists; all ints as positions; all short histories",
  "Tests use a few positions on one list; negative and extreme positions, aliasing with the list's own elements and sequences of operations are not sampled.",
  ["list.hpp", "utility.hpp"], [("access", "list.hpp:operator[]"), ("insert, remove, erase", "list.hpp:insert, remove, erase"), ("append", "list.hpp:operator+=, extend"), ("bounds", "utility.hpp:check_bounds")], over=("inputs", "histories"))
P("L02", "List: slicing, rotation, reversal and repetition",
  "A slice holds exactly the elements start, start + step, ... before stop for any bounds inside the list and any non-zero step; other bounds and a zero step are refused. "
  "Rotating by any int n moves the element at i to (i + n) mod size (or back), reversing reverses, and list * k is k copies in order, refused when k is negative or the result has no size.",
  "all lists within the length bound, all ints as bounds, steps, rotations and times",
  "Steps beyond the size, extreme rotations and products of sizes overflow; tests use small numbers.",
  ["list.hpp"], [("slice", "list.hpp:slice"), ("rotate", "list.hpp:operator<<=, operator>>="), ("repeat, reverse", "list.hpp:operator*, operator*=, reverse")])
P("L03", "List: search, removal by value, uniquify, filter and map",
  "index, find, contains and count agree with the positions at which the element is found (index and contains also within a range of the list, where an invalid range holds nothing). "
  "Removing by value drops exactly the first (-=) or all (/=) occurrences, also when the value is one of the list's own elements; uniquify keeps the first occurrence of each element in order. "
  "filter keeps exactly the elements that satisfy the predicate and map applies the function once to every element, in order.",
  "all lists within the length bound with every coincidence of elements, all ints as range",
  "Coincidences of elements, adjacent occurrences and aliasing with the list multiply beyond the sampled lists.",
  ["list.hpp"], [("search", "list.hpp:find, index, contains, count"), ("remove by value", "list.hpp:operator-=, operator/="), ("uniquify, filter, map", "list.hpp:uniquify, filter, map")])
P("L04", "List: sorting is stable and keeps every element",
  "sort puts the elements into ascending order of the comparator (< by default), keeps every element exactly once, and keeps equal elements in their original order.",
  "all lists of up to the length bound with any keys, three comparators; 20 elements with symbolic keys in between",
  "Tests sort two fixed lists of distinct elements; stability and particular permutations are not visible there.",
  ["list.hpp"], [("sort", "list.hpp:sort")])
P("L05", "List: comparison is lexicographic, copies are independent",
  "Two lists are equal exactly when they have equal elements in the same order; <, <=, > and >= are the lexicographic order of the elements, also for nested lists and strings. "
  "Copies equal the original and are independent of it, moves and self-assignment keep the value.",
  "all pairs of lists within the length bounds",
  "Prefixes, single differing positions and nested comparison need particular pairs.",
  ["list.hpp"], [("comparison", "list.hpp:operator==, operator<=>"), ("copy, move", "list.hpp:constructors, operator=")])
P("D01", "Deque: both ends, any index, any history",
  "push and pop at either end behave as a double-ended queue for every sequence of operations; element access works exactly for -n <= i < n (from the end for negative i), front and back are the ends. "
  "Extending at the front puts the given range, in its order, before the elements and extending at the back puts it after them. "
  "Popping or reading the ends of an empty deque, or an index outside it, is refused with an error and changes nothing.",
  "all deques within the length bound, all ints as index, all short histories; long fixed ones",
  "Tests run a few fixed sequences; the state after mixed operations at both ends depends on the history.",
  ["deque.hpp", "utility.hpp"], [("ends", "deque.hpp:push_back, push_front, pop_back, pop_front, front, back"), ("access", "deque.hpp:operator[]"), ("extend", "deque.hpp:extend_back, extend_front")], over=("inputs", "histories"))
P("D02", "Deque: rotation, reversal and comparison",
  "Rotating by any int n moves the element at i to (i + n) mod size (>>=) or back (<<=), reverse reverses the order, and both keep every element. "
  "Equality and order are those of the sequences of elements; copies are independent and moves keep the value.",
  "all deques within the length bound, all ints as rotation, all pairs within the bounds",
  "Extreme rotations overflow, and rotations in the other direction are taken modulo the size.",
  ["deque.hpp"], [("rotate", "deque.hpp:operator<<=, operator>>="), ("reverse, compare", "deque.hpp:reverse, operator==, operator<=>")])
P("T01", "Set: algebra and subset relations",
  "Union, intersection, difference and symmetric difference contain exactly the elements of their definitions, also in their compound forms and for a set with itself, and leave the operands unchanged. "
  "<=, <, >= and > are the (proper) subset and superset relations and == is equality of the elements; a set never holds an element twice and iterates in ascending order.",
  "all pairs of sets within the size bounds with every overlap, laws on triples",
  "Which elements coincide decides the result; tests use two overlapping sets.",
  ["set.hpp"], [("algebra", "set.hpp:operator&, operator|, operator-, operator^ and compound forms"), ("relations", "set.hpp:operator<=>, operator==")])
P("T02", "Set: histories of additions and removals",
  "After any sequence of operations a set holds exactly the elements added and not removed since, once each and ascending: add and remove tell whether they changed the set, contains and find agree with membership, and pop takes an element of the set. "
  "min and max are the least and greatest element; they and pop are refused with an error when the set is empty.",
  "all short histories with any elements",
  "Tests run one fixed sequence; additions of present and removals of absent elements in other states are not sampled.",
  ["set.hpp"], [("update", "set.hpp:add, remove, pop, clear, extend"), ("query", "set.hpp:contains, find, min, max")], over=("inputs", "histories"))
P("M01", "Dict: histories of additions, assignments and removals",
  "After any sequence of operations a dictionary maps exactly the keys added and not removed since to their latest values, one pair for each key, ascending by key; adding a present key changes nothing and tells so. "
  "Access to a missing key is refused with an error, remove tells whether the key was there, pop takes a pair of the dictionary and is refused when it is empty.",
  "all short histories with any keys and values",
  "Tests run one fixed sequence; keys that coincide and states after removals are not sampled.",
  ["dict.hpp"], [("update", "dict.hpp:add, remove, pop, clear, extend"), ("access", "dict.hpp:operator[]")], over=("inputs", "histories"))
P("M02", "Dict: lookup, views and equality",
  "get returns the value of a present key and the default for a missing one without adding it; contains and find agree with the keys, and assigning to a key changes that value only. "
  "keys, values and items hold exactly the keys, the values and the pairs; min and max are the least and greatest key, refused when empty; equality is equality of the pairs.",
  "all dictionaries within the size bounds with any keys and values",
  "Lookups that insert, values that coincide, and equality on keys only are visible only for particular contents.",
  ["dict.hpp"], [("lookup", "dict.hpp:get, find, contains, operator[]"), ("views", "dict.hpp:keys, values, items, min, max"), ("equality", "dict.hpp:operator==")])

# ---------------------------------------------------------------- fractions
P("F01", "Fractions are canonical",
  "A fraction built from a numerator and a non-zero denominator is in lowest terms with a positive denominator and has exactly that value; a zero denominator, or a value that is no pair of ints, is refused with an error. "
  "Copies and moves keep the value, and the value as a double is the quotient.",
  "every numerator over the listed denominators and every denominator below the listed numerators, with the ends of int",
  "Signs of both parts, common divisors and the smallest int combine; tests try a few.",
  ["fraction.hpp"], [("reduction", "fraction.hpp:Fraction, simplify"), ("observers", "fraction.hpp:numerator, denominator, operator double")])
P("F02", "Fraction arithmetic is exact",
  "Sum, difference, product, quotient, negation, absolute value, increment and decrement give the exact fraction in lowest terms; a result that is no pair of ints is refused with an error, as is division by zero. "
  "Compound forms agree with the binary forms, operands are unchanged and may be the same object.",
  "every numerator of the first operand over the listed denominators, with the listed second operands",
  "Intermediate overflow and reduction by common divisors need particular operands.",
  ["fraction.hpp"], [("arithmetic", "fraction.hpp:operator+, operator-, operator*, operator/, operator++, operator--, abs")])
P("F03", "Fraction order and equality are those of the values",
  "==, <, <=, > and >= agree with the order of the rational numbers for every pair of fractions, also close together and with large parts. "
  "Exactly one of <, == and > holds, and equal fractions have equal hashes.",
  "all pairs of numerators over the listed denominators and near the ends of int",
  "Fractions that differ by less than the precision of a double, or whose cross products overflow, are not sampled.",
  ["fraction.hpp"], [("comparison", "fraction.hpp:operator==, operator<=>"), ("hash", "fraction.hpp:std::hash<Fraction>")])
P("F04", "Fraction remainder, gcd and lcm",
  "a % b is a - b * trunc(a / b), exactly, with the sign of a; a zero divisor is refused with an error. "
  "gcd is the greatest non-negative fraction of which both operands are integer multiples, lcm the least non-negative integer multiple of both (zero when one is zero); a result that is no pair of ints is refused with an error.",
  "every numerator of the first operand over the listed denominators, with the listed second operands",
  "Signs and unequal denominators of both operands combine; tests try two pairs.",
  ["fraction.hpp", "utility.hpp"], [("remainder", "fraction.hpp:operator%"), ("gcd, lcm", "fraction.hpp:gcd, lcm; utility.hpp:gcd")])
P("F05", "Fraction text form round-trips",
  "A fraction prints as n or n/d in lowest terms, and reading the printed text gives the fraction back. "
  "Reading accepts exactly an optional sign and digits, optionally a slash and a signed non-zero denominator, after blanks and up to a blank or the end of the stream; anything else is refused by an error or a failed stream.",
  "all texts within the length bound, numbers up to 11 digits, the printed forms of the listed fractions",
  "Missing parts, signs, several slashes and out-of-range numbers are single points among the texts.",
  ["fraction.hpp"], [("print", "fraction.hpp:operator<<"), ("read", "fraction.hpp:operator>>")])

# ---------------------------------------------------------------- complex numbers, tuples, printing
P("X01", "Complex arithmetic follows the definitions",
  "Sum, difference, product, quotient, opposite and conjugate of complex numbers are those of the definitions, exactly for whole parts whose results are exact; compound forms agree with the binary forms, also on one and the same object, and operands are unchanged. "
  "Dividing by zero, and raising zero to a non-zero power, is refused with an error. "
  "abs and arg are the polar coordinates with the angle in [-pi, pi], and pow is the repeated product (the principal value for complex exponents).",
  "all whole parts within the bound for sums and products, listed divisors, small bases and exponents",
  "Tests try one pair for each operator; a wrong sign in one part or a compound form on itself needs particular operands.",
  ["complex.hpp"], [("arithmetic", "complex.hpp:operator+=, operator-=, operator*=, operator/= and binary forms"), ("polar, power", "complex.hpp:abs, arg, pow")])
P("X02", "Complex equality is tolerant, symmetric and agrees with the hash",
  "Two complex numbers are equal exactly when both parts differ by less than the double epsilon: a number equals its copy (infinite parts too), whole numbers are equal exactly when their parts are, and != is the negation of ==. "
  "Equal numbers hash equally, the two zeros among them.",
  "all doubles as one part, all whole parts within the bound",
  "Signed zeros, infinities and differences at the tolerance are single points among the doubles.",
  ["complex.hpp"], [("equality", "complex.hpp:operator=="), ("hash", "complex.hpp:std::hash<Complex>")])
P("X03", "Complex text form and literals",
  "A complex number prints as (a+bj) or (a-bj). "
  "Reading accepts exactly a real literal, an imaginary literal (with j) or both together, after blanks and up to a blank or the end of the stream, and gives the number it spells; any other text is refused by an error or a failed stream.",
  "all texts within the length bound, the printed forms of small parts, listed literals with exponents",
  "Two points, a missing sign, a digit after j: the malformed texts are single points among the texts.",
  ["complex.hpp"], [("print", "complex.hpp:operator<<"), ("read", "complex.hpp:operator>>")])
P("P01", "Tuples: elements, rest and equality",
  "get<i> is the i-th element, size the number of elements, and rest the tuple without the first. "
  "Two tuples are equal exactly when they have the same number of elements with the same types and equal values in order; != is the negation, and copies are independent.",
  "all values of tuples of up to four ints, and of mixed types",
  "Equality that looks at some of the elements only shows for pairs that differ in one position; tests compare two tuples.",
  ["tuple.hpp"], [("elements", "tuple.hpp:get, rest, size"), ("equality", "tuple.hpp:operator==")])
P("O01", "Containers print in their documented form at any nesting",
  "A list prints as [a, b], a deque as <a, b>, a set as {a, b}, a dictionary as {k: v, k: v}, a tuple as (a, b) or (a,), with the printed forms of the elements, nested ones too, and empty ones as the bare brackets. "
  "Printing works inside any output, and leaves the format of the stream (flags, fill, precision) as it was.",
  "all numbers of the listed widths and strings of the listed lengths, fixed shapes",
  "Separators, one-element tuples, and the state of the stream are not covered by comparing single prints.",
  ["utility.hpp", "tuple.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp"], [("print", "utility.hpp:print; tuple.hpp:operator<<; list.hpp, deque.hpp, set.hpp, dict.hpp, str.hpp:operator<<")])
P("V01", "Every type is a value: copies, moves, exchanges and changes in any order",
  "For integers, fractions, complex numbers, strings, lists, deques, sets, dictionaries and tuples: after any history of copies, moves, exchanges, self-assignments and changes, every object has exactly its own contents. "
  "A moved-from object is again a value of its type (usable, equal to its copy, canonical), and a copy hashes as the original.",
  "all histories up to the bound over three objects of any contents",
  "State left behind by one operation and met by a later one, aliasing, and the state of moved-from objects are not observed by tests of single operations.",
  ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp"], [("value semantics", "int.hpp, fraction.hpp, complex.hpp, str.hpp:copy and move members; list.hpp, deque.hpp, set.hpp, dict.hpp, tuple.hpp:members that hold the contents")], over=("inputs", "histories"))
P("E01", "A refused operation changes nothing",
  "When an operation is refused (division by zero, a result out of range, a position out of range, a missing key, an empty container, a malformed text, a power or root outside the domain) it raises a runtime_error, and the operands, the objects around them and the arguments are afterwards what they were before, and usable. "
  "Nothing is inserted by a refused access.",
  "all operands and positions of the refusing kind within the bound",
  "Tests check that an error is raised, and rarely what the operands are afterwards; which statement is reached before the refusal depends on the input.",
  ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "utility.hpp"], [("refusals", "utility.hpp:check_bounds, check_empty, check_zero; fraction.hpp:simplify; dict.hpp:operator[]; int.hpp:operator/=, operator%=; list.hpp:insert, remove, erase, operator*=")], over=("inputs", "histories"))
P("U01", "No operation has undefined behaviour",
  "No operation of the library, for any values of its arguments that are valid objects, reads or writes outside an object, uses memory that is freed or was never written, overflows a signed integer, shifts or divides out of range, or breaks a precondition of the standard library. "
  "Arguments outside an operation's domain are refused by an exception instead.",
  "all inputs of the other properties' bounds, through every header of the library",
  "Undefined behaviour mostly computes what one expects until a compiler or an input changes; tests without sanitizers cannot see it, and with them see single inputs only.",
  ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp", "utility.hpp"],
  [("indices and ranges", "utility.hpp:internal::check_bounds; list.hpp, deque.hpp, str.hpp:operator[], slice, erase"), ("arithmetic", "int.hpp:operator+=, operator-=, operator*, operator/; fraction.hpp:simplify"), ("emptiness", "utility.hpp:internal::check_empty; set.hpp, dict.hpp, deque.hpp:min, max, pop")])
