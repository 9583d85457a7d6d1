#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
U = "src/ubig.rs"; O = "src/ubig/ops.rs"; D = "src/digit.rs"
DIG = dict(name="digits", meaning="little-endian digit vector of a number; its value is sum digit[i]*radix^i", where=U)

prop("C01", "Addition is exact",
 "For any two numbers of the same type the sum, computed by any of the addition operators, denotes exactly the mathematical sum of the operands. This holds whatever the lengths of the operands are and however far a carry travels.",
 ["inputs", "configurations"], "all pairs of numbers of any length, in each of the 8 digit types (4 binary, 4 decimal)",
 "Unit tests add a few dozen fixed pairs; carry chains, unequal lengths and the per-type carry arithmetic at extreme digits are an unbounded input space.",
 ["src/ubig/add.rs", U, O, D], [("ripple-carry addition", "src/ubig/add.rs"), ("digit addition with carry, per digit type", D)], ["operators + and +="], [DIG])
prop("C02", "Subtraction is exact and never goes below zero",
 "If the second operand is not larger than the first, every subtraction operator returns exactly the mathematical difference. If it is larger, the operator reports the underflow (by panicking) and never returns a wrapped or truncated value.",
 ["inputs", "configurations"], "all pairs of numbers in each digit type, including equal ones, ones with equal leading digits, and ones where the borrow runs over the whole number",
 "Tests use fixed pairs; the length of the result (cancellation of leading digits) and the borrow chain depend on all digits of both operands.",
 ["src/ubig/sub.rs", "src/ubig/rsub.rs", U, O, D], [("borrow propagation and underflow test", "src/ubig/sub.rs"), ("digit subtraction with borrow", D)], ["operators - and -="], [DIG])
prop("C03", "Multiplication is exact at every operand size",
 "For any two numbers of the same type the product, computed by any multiplication operator, denotes exactly the mathematical product. This holds for every combination of operand lengths, hence for every multiplication algorithm the library switches between and every way it splits operands.",
 ["inputs", "configurations"], "all pairs of numbers: all length combinations across the size thresholds (balanced, unbalanced, very long), all digit patterns (zero parts, extreme digits, equal parts), all digit types",
 "The tests multiply a handful of random or fixed operands per algorithm; sign cases, zero-length parts and carries inside the recursive algorithms depend on operand shape and have probability near zero for random digits.",
 ["src/ubig/mul.rs", "src/ubig/mul/long.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", O], [("algorithm selection by operand sizes", "src/ubig/mul.rs"), ("schoolbook, Karatsuba and Toom-3 products", "src/ubig/mul/")], ["operators * and *="], [DIG])
prop("C04", "Squares and powers are exact",
 "The square of any number denotes exactly its product with itself, and raising a number to an exponent n >= 0 denotes exactly the n-th power, with x^0 = 1 for every x, zero included. This holds at every operand size and for every exponent.",
 ["inputs", "configurations"], "all numbers of any length and digit pattern in each digit type, all exponents",
 "Squaring has its own schoolbook, Karatsuba and Toom-3 code; tests square a few numbers per algorithm at the first recursion level only.",
 [U, "src/ubig/mul.rs", "src/ubig/mul/long.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", O], [("dedicated squaring algorithms", "src/ubig/mul/"), ("exponentiation by repeated squaring", O)], ["square()", "pow()"], [DIG])
prop("C05", "Division yields the exact quotient and remainder",
 "For any number a and any non-zero number b of the same type, the quotient q and remainder r delivered by the division and remainder operators and by the combined and remainder-only in-place methods satisfy a = q*b + r with 0 <= r < b. The quotient-only, remainder-only and combined interfaces deliver the same q and r.",
 ["inputs", "configurations"], "all pairs (a, b), b non-zero, at all length combinations (one-digit, two-digit, schoolbook and recursive divisors), including quotient digits whose estimate needs correction and divisors just below a power of two times the radix",
 "Quotient-digit estimation, its corrections and the divisor normalisation go wrong only for particular leading digits; tests use a few fixed dividends.",
 ["src/ubig/div.rs", "src/ubig/div/long.rs", "src/ubig/div/bz.rs", U, O, D], [("one- and two-digit division", "src/ubig/div.rs"), ("schoolbook long division", "src/ubig/div/long.rs"), ("Burnikel-Ziegler recursive division", "src/ubig/div/bz.rs")], ["operators / /= % %=", "div_assign_big", "rem_assign_big"], [DIG])
prop("C06", "Arithmetic with a small operand equals big-number arithmetic",
 "Adding, subtracting, multiplying, dividing by, or taking the remainder by a single digit or a plain machine integer of the digit's storage type gives the same number (or the same failure) as the operation with that value as a big number. For decimal numbers this includes machine integers that do not fit into one digit.",
 ["inputs", "configurations"], "all numbers, all digits and all storage integers 0..2^w-1 as right operand, for the five operations in each digit type",
 "Each operation has separate code for a digit, for an integer below the radix and for an integer that splits into two digits; tests try two or three values of each.",
 [O, "src/ubig/add.rs", "src/ubig/sub.rs", "src/ubig/mul.rs", "src/ubig/div.rs", U, D], [("operator implementations for digits and storage integers", O), ("splitting an integer into two decimal digits", D)], ["operators + - * / % with scalar right operand"], [DIG])
prop("C07", "Left shift multiplies by a power of two",
 "Shifting a number left by n, in place or not, denotes exactly the number times 2^n, for binary and decimal numbers alike and for every n >= 0.",
 ["inputs", "configurations"], "all numbers including zero, all shift distances (0, inside a digit, multiples of the digit width, beyond), all digit types",
 "Tests shift a few numbers by a few distances; carries out of the top digit, whole-digit shifts and the decimal slow path depend on both operands.",
 [O, "src/ubig/shl.rs", D], [("shift within digits plus whole-digit move (binary)", O), ("multiplication by 2^n (decimal)", O)], ["operators << and <<="], [DIG])
prop("C08", "Right shift divides by a power of two, rounding down",
 "Shifting a number right by n, in place or not, denotes exactly the integer part of the number divided by 2^n, for binary and decimal numbers alike and for every n >= 0. Shifting by at least the length of the number gives zero.",
 ["inputs", "configurations"], "all numbers including zero, all shift distances including ones beyond the number's length, all digit types",
 "Tests shift a few numbers by small distances; shifting everything out, whole-digit shifts and large decimal shifts are not reached.",
 [O, "src/ubig/shr.rs", D], [("dropping whole digits plus shift within digits (binary)", O), ("digit-wise shift with carry (decimal)", "src/ubig/shr.rs")], ["operators >> and >>="], [DIG])
prop("C09", "Parsing accepts exactly the numerals and yields their value",
 "Every non-empty string of decimal digits, and every string 0x followed by a non-empty string of hexadecimal digits in either case, parses to exactly the number it denotes in every number type, leading zeros included. Any other string that contains a character which is not a digit of its base is refused as an invalid number.",
 ["inputs", "configurations"], "all strings, of any length and any leading zeros, in each digit type",
 "The text is cut into digit-sized chunks; what is accepted and computed depends on where a character falls relative to a chunk boundary, which a few fixed strings do not settle.",
 [U, D], [("chunked conversion of text to digits", U), ("conversion of one chunk to a digit", D)], ["str::parse / FromStr"], [DIG])
prop("C10", "Printed text is the number's numeral and honours the format",
 "Display prints exactly the decimal numeral, and lower/upper hex (binary types) exactly the hexadecimal numeral of the number, without leading zeros and \"0\" for zero. Width, fill, alignment, zero padding, plus sign and alternate-form flags have the same effect as for Rust's built-in integers.",
 ["inputs", "configurations"], "all numbers of any length, all formatting flags, in each digit type",
 "Inner digits must be padded to their full width and converted across bases; tests print a few numbers without zero digits inside and with few flags.",
 [U], [("digit-wise printing with padding", U), ("conversion to decimal for printing binaries", U)], ["format! with {}, {:x}, {:X} and flags"], [DIG])
prop("C11", "Conversion from binary to decimal preserves the number",
 "Converting a binary number to its decimal type yields exactly the same number, for every number of every length and in each digit width.",
 ["inputs", "configurations"], "all binary numbers, in particular lengths around and far above the size where the divide-and-conquer conversion starts, and numbers whose low part is short or zero",
 "The conversion splits the number recursively by powers of ten; short low parts and recursion depth depend on size and value, and tests convert only a few numbers.",
 [U], [("to_decimal: repeated shift-and-add, divide and conquer above a cutoff", U)], ["to_decimal()"], [DIG])
prop("C12", "Every result is in canonical form",
 "Every number returned or updated by a public operation has all digits within the radix of its type and no most significant zero digit, zero being the empty digit sequence. Hence two numbers are equal exactly when their digit sequences are, and the zero test and digit count agree with the value.",
 ["inputs", "histories", "configurations"], "all operations on all canonical operands, in particular those whose result is much shorter than the operands or zero, in each digit type",
 "Each operation trims its result in its own way; a leading zero digit only appears when leading digits cancel exactly, which sampled operands rarely do, and the tests compare values rather than this invariant.",
 [U, O, "src/ubig/sub.rs", "src/ubig/support.rs", "src/ubig/div.rs", "src/ubig/shr.rs", "src/ubig/shl.rs"], [("digit counts returned by the slice algorithms", "src/ubig/*.rs"), ("truncation to that count", U), ("drop_leading_zeros", "src/ubig/support.rs")], ["digits(), nr_digits(), is_zero() after every operation"], [DIG])
prop("C13", "Comparison is the numerical order",
 "For any two numbers of the same type, however they were computed, the comparison operators, ordering functions, equality, minimum and maximum agree with the numerical order of the values they denote.",
 ["inputs", "histories"], "all pairs of numbers of each digit type, including equal values obtained by different computations and values differing only in the lowest digit",
 "Tests compare a few literal digit vectors; the property quantifies over pairs reached by arbitrary computations.",
 ["src/ubig/cmp.rs", U, D], [("comparison by length, then from the most significant digit", "src/ubig/cmp.rs"), ("derived equality on digits", U)], ["cmp, partial_cmp, ==, <, <=, >, >=, min, max"], [DIG])
prop("C14", "Failures are exactly the documented ones and leave operands intact",
 "Dividing by zero is reported (an error from the methods, a panic from the operators) for every dividend, zero and dividends shorter than the divisor included, and a reported error leaves the operand unchanged. Apart from underflow and division by zero, every operation on valid numbers returns normally: it never panics, overflows or fails to terminate, with arithmetic overflow checks on or off.",
 ["inputs", "histories", "configurations"], "all operations on all valid operands of any size, in each digit type, in builds with and without overflow and debug checks",
 "Tests exercise a few failures; absence of panics and of internal overflow is a statement about every input, and tests run in one build profile only.",
 [U, O, "src/ubig/div.rs", "src/ubig/sub.rs", "src/result.rs"], [("checks for zero divisors and underflow", "src/ubig/div.rs"), ("unwrap/panic on internal errors", O)], ["outcome of every public call"], [DIG])
prop("C15", "All forms of an operation agree and borrowed operands never change",
 "For every operator, the owned, borrowed, mixed and in-place forms deliver identical digits or the identical failure for the same operands. An operand passed by shared reference has the same digits after the call as before.",
 ["inputs", "configurations"], "all operands, all operators, all combinations of owned and borrowed operands and assignment forms, big, digit and integer right operands, in each digit type",
 "There are about 90 hand-written operator implementations; the tests call a minority of them, on one or two operands.",
 [O], [("operator trait implementations", O)], ["every operator form"], [DIG])
prop("C16", "Long computations equal their mathematical replay",
 "Any finite sequence of operations, each using results of earlier ones, yields at every step exactly the number (or failure) obtained by performing the same sequence on mathematical natural numbers. The representation or storage history of an intermediate result never influences later results.",
 ["histories", "inputs", "configurations"], "all finite sequences of public operations over a set of number variables, in each digit type and with conversions between types",
 "Tests perform single operations on literals; interactions, e.g. a non-canonical intermediate that a later algorithm trips over, need multi-step histories.",
 [U, O, "src/ubig/mul.rs", "src/ubig/div.rs", "src/ubig/sub.rs"], [("every public operation keeps the digit vector canonical", U)], ["sequences of public calls"], [DIG])
prop("C17", "Construction and inspection agree with the value",
 "Constructing a number from digits (with or without superfluous zeros) or from a machine integer yields exactly the number those denote, the constants zero and one denote 0 and 1, and the digits, digit count and zero/one tests of any number agree with its value. Copies, also those made into an existing number, are equal to and independent of their original.",
 ["inputs", "configurations"], "all digit vectors, all storage integers (also those above a decimal radix), in each digit type",
 "Tests construct a few numbers per type; boundary integers (radix, radix-1, maximum) and zero-padded vectors of all lengths are an unbounded set.",
 [U, D], [("new strips leading zeros", U), ("From<integer> splits large values for decimals", U)], ["UBig::new, From, zero, one, digits, nr_digits, is_zero, is_one, clone, clone_from"], [DIG])
prop("C18", "Text round trips across bases and digit types",
 "Printing any number in decimal, or a binary number in hexadecimal with prefix, and parsing the text again as any of the number types yields the same number.",
 ["inputs", "configurations"], "all numbers, both bases, all pairs of source and target digit types",
 "The round trip composes base conversion, padding and chunked parsing with different chunk sizes per type; tests never compose them.",
 [U, D], [("formatting and parsing code", U)], ["format! then parse"], [DIG])
prop("C19", "Results do not depend on the digit type",
 "The same computation carried out in any of the eight number types (binary or decimal, 8 to 64 bit digits) yields the same mathematical results, comparisons, failures and printed text.",
 ["configurations", "histories", "inputs"], "all computations, all pairs of digit types",
 "The digit types have separate digit arithmetic and take different algorithm paths for the same value; no test runs a computation in two types.",
 [D, U, O], [("Digit implementations for binary and decimal digits", D)], ["the same call sequence in several types"], [DIG])
prop("C20", "Arithmetic laws hold between operations",
 "Results of different operations satisfy the laws of natural-number arithmetic: (a+b)-b = a, a*b/b = a, (a/b)*b + a%b = a, (a+b)^2 = a^2+2ab+b^2, a*(b+c) = a*b+a*c, a<<n = a*2^n, (a<<n)>>n = a, and commutativity and associativity of sums and products. They hold whichever internal algorithm each side happens to use.",
 ["inputs", "histories"], "all operand tuples, sized so that the two sides use different algorithms",
 "Tests check operations one at a time against literals computed elsewhere; consistency between algorithms at the same operands is not checked.",
 ["src/ubig/mul.rs", "src/ubig/div.rs", O, U], [("algorithm selection by size", "src/ubig/mul.rs")], ["pairs of expressions over public operators"], [DIG])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
