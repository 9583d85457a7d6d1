"""Writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
MODELNOTE = ("Every recorded call of the real library is checked by TLC to be a step of spec/Babs.tla; the design-level models named in "
             "DESIGN.md are checked exhaustively within their constants. ")
notes = {
    "C01": "Sums by every form, 8 digit types; the carry loop for any length and radix by induction (Apalache); histories: all pairs of short numbers over special digits, every length to 300 and a ladder to 66,100 digits, runs of every length.",
    "C02": "Differences and underflow; the borrow loop for any length and radix by induction; histories as C01, cancellation of any number of leading digits.",
    "C03": "Products; Karatsuba and Toom-3 machines at small radix, their identities for any size, their branch combinations replayed on the real types; operands to 1,400 digits densely, to 16,000 sparsely.",
    "C04": "Squares as C03 and to 32,769 digits; powers: loop by induction, exponents to 70 on all short bases, to 65,537 on some.",
    "C05": "Quotient and remainder; division machines at radices 2 to 10, estimate and scaling lemmas for any size; divisors to 420 digits densely, to 6,000 sparsely, numerators to 66,100.",
    "C06": "All digits and integers of 8 bits, special ones above; digit arithmetic proved for all values of every width (Apalache).",
    "C07": "All distances to 3 words on short numbers, all to 3,000 on some, far distances to 10^6 bits; loops by induction.",
    "C08": "As C07, any distance beyond the length.",
    "C09": "All strings of up to 4 (5) characters of an alphabet, a foreign character at any place, numerals to 131,073 characters; the empty digit string may be refused or read as zero.",
    "C10": "All combinations of flags, widths, fills and precisions on some numbers, all lengths to 1,100 digits, to 250,000 bits.",
    "C11": "Binary numbers of all lengths to 300 digits, a ladder to 524,288 bits; the decimal side of multiples of powers of ten.",
    "C12": "Digits of every number written in the histories, operands chosen so that digits cancel.",
    "C13": "Literal and computed pairs, equal or different in one digit at any place, every comparison operator; the comparison loop for any length.",
    "C14": "Outcomes in release and overflow-checked builds, crashes and hangs included; operands after an error.",
    "C15": "All forms of an operator on the same operands, with and without spare storage; digits of operands before and after.",
    "C16": "Histories of up to 30 (60) calls over 8 registers; all pairs (triples) from a list of 50 operations.",
    "C17": "Constructors, copies, clone_from, splitting, inspection; superfluous zeros of every number to 1,100.",
    "C18": "Printing and parsing across all type pairs in three notations.",
    "C19": "One computation in all 8 types, compared event by event; operands special for each of the types; digit arithmetic by Apalache.",
    "C20": "Laws as pairs of computations whose results must be the same number.",
}
import sys
sys.path.insert(0, HERE)
from plan import PLAN, MODELS
checks = []
for i in range(1, 21):
    c = "C%02d" % i
    smt = any(MODELS[x].get("tool") == "apalache" for x in PLAN[c]["models"])
    checks.append(dict(property=c, quick_cmd="python3 tools/check.py %s --tier quick" % c,
                       thorough_cmd="python3 tools/check.py %s --tier thorough" % c,
                       technique="TLA+ specification; TLC trace validation of recorded executions, replay of specification behaviours, TLC model checking"
                                 + (", Apalache induction" if smt else ""),
                       level="model_checking", level_note=MODELNOTE + notes[c]))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
