"""What each check does: aspects enforced by the trace specification, number of
histories executed and bytes of them recorded per tier, models explored,
behaviours generated from the specification and replayed."""

M = 1000000
INTERFACE = ("interface", "interface-large")


def p(enforce, quick=4 * M, models=(), record=6 * M, gen=0, cover=()):
    return dict(enforce=enforce, models=list(INTERFACE + models), quick=(quick, record), thorough=(20 * quick, 60 * M),
                gen=dict(quick=gen, thorough=20 * gen),
                # kind, operands drawn, runs with different seeds
                cover=dict(quick=[(k, 1200, 2) for k in cover], thorough=[(k, 6000, 8) for k in cover]))


KERNELS = ("kernels", "kernels-10", "kernels-2", "kernels-big")
DIGITS = ("digits", "digits-bin", "digits-u8", "native-b8", "native-b16", "native-b32", "native-b64", "native-d8", "native-d16",
          "native-d32", "native-d64")
TEXT = ("text-dec-bin", "text-hex-dec", "text-hex-bin", "text-dec-dec", "text-oct")
DIVIDE = ("divide", "divide-dec", "divide-dec10", "divide-bz2", "divide-bz4", "divide-bz10", "divide-no-clamp", "divide-no-carry")
MULTIPLY = ("karatsuba", "toom3", "toom3-as-found", "reciprocal")

PLAN = {
    "C01": p("voc", models=KERNELS + ("any-add",), cover=("add",)),
    "C02": p("voc", models=KERNELS + ("any-sub",), cover=("sub",)),
    "C03": p("voc", models=MULTIPLY + ("any-up", "any-rows", "any-pair-range", "any-pairvalue", "any-karatsuba", "any-toom", "any-toomfits"), cover=("kara", "toom")),
    "C04": p("voc", models=("shift", "shift-dec", "any-diag", "any-pow", "any-karatsuba", "any-toom", "any-toomfits") + MULTIPLY, cover=("kara", "toom")),
    "C05": p("voc", models=DIVIDE + ("any-down", "any-scale", "any-estimate"), cover=("div", "bz")),
    "C06": p("voc", models=KERNELS + DIGITS + ("any-up", "any-down"), cover=("short",)),
    "C07": p("voc", models=("shift", "shift-dec", "shift-bin", "any-up"), cover=("shl",)),
    "C08": p("voc", models=("shift", "shift-dec", "shift-bin", "any-down"), cover=("shr",)),
    "C09": p("voc", models=TEXT + ("any-horner", "any-up")),
    "C10": p("to", models=TEXT),
    "C11": p("voc", 2 * M, models=("decimal", "decimal-big", "decimal-as-found", "any-horner", "any-down"), cover=("dec",)),
    "C12": p("ci", gen=500, models=("any-longer",), cover=("sub", "shr", "div")),
    "C13": p("rvc", models=("any-order", "any-longer"), cover=("cmp",)),
    "C14": p("osc", gen=500, models=("divide-no-clamp", "divide-no-carry", "toom3-as-found"), cover=("sub", "toom", "bz")),
    "C15": p("afc", 2 * M, gen=500),
    "C16": p("vosrtic", 800000, gen=2000),
    "C17": p("vicr", models=("bignat",)),
    "C18": p("voc", 2 * M, models=TEXT + ("decimal",), cover=("dec",)),
    "C19": p("n", 800000, models=DIGITS),
    "C20": p("loc", 2 * M, gen=300, models=("bignat",)),
}

LARGE = dict(thorough_only=True)
MISTAKE = dict(expect="violation")


def native(c):
    return dict(tool="apalache", files=("AlgDigitsNative", "AlgDigits"), args=("--cinit=" + c,), symbolic="all values of the native width")


def unbounded(name, inv=None, step=None):
    """A loop or lemma for numbers of any length in digits of any radix; loops by induction"""
    return dict(tool="apalache", files=("AlgUnbounded",), inv=inv or name + "Inv", length="0" if step == "Stay" else "1",
                args=("--cinit=CInit", "--init=" + name + "Before", "--next=" + (step or name + "Step")),
                symbolic="any radix, any length" + ("" if step == "Stay" else ", by induction over the digits"))


MODELS = {
    # the interface specification on tiny types: its properties, in every reachable state
    "interface": dict(module="MCBabs", cfg="MCBabsSmall", min_states=500),
    "interface-large": dict(module="MCBabs", cfg="MCBabs", min_states=20000, **LARGE),
    # natural numbers: definitions against TLC's integers, Java overrides against definitions
    "bignat": dict(module="MCBigNat", min_states=400),
    # the loops over digits
    "kernels": dict(module="MCKernels", min_states=200000),
    "kernels-10": dict(module="MCKernels", cfg="MCKernels10", min_states=700000, **LARGE),
    "kernels-2": dict(module="MCKernels", cfg="MCKernels2", min_states=10000),
    "kernels-big": dict(module="MCKernels", cfg="MCKernelsBig", min_states=1500000, **LARGE),
    # the digits: small radices exhaustively, every native width symbolically
    "digits": dict(module="MCDigits", min_states=1000),
    "digits-bin": dict(module="MCDigits", cfg="MCDigitsBin", min_states=1000),
    "digits-u8": dict(module="MCDigits", cfg="MCDigitsU8", min_states=3000000, **LARGE),
    "reciprocal": dict(tool="apalache", files=("AlgReciprocal",), symbolic="all operands below the square of the radix"),
    # multiplication
    "karatsuba": dict(module="MCKaratsuba", min_states=60000),
    "toom3": dict(module="MCToom3", min_states=200000, **LARGE),
    "toom3-as-found": dict(module="MCToom3", cfg="MCToom3AsFound", **MISTAKE),
    # division
    "divide": dict(module="MCDivide", min_states=1000000, **LARGE),
    "divide-dec": dict(module="MCDivide", cfg="MCDivideDec", min_states=1000000, **LARGE),
    "divide-dec10": dict(module="MCDivide", cfg="MCDivideDec10", min_states=1000000, **LARGE),
    "divide-bz2": dict(module="MCDivide", cfg="MCDivideBZ2", min_states=500000, **LARGE),
    "divide-bz4": dict(module="MCDivide", cfg="MCDivideBZ4", min_states=400000, **LARGE),
    "divide-bz10": dict(module="MCDivide", cfg="MCDivideBZ10", min_states=2000000, **LARGE),
    "divide-no-clamp": dict(module="MCDivide", cfg="MCDivideNoClamp", **MISTAKE),
    "divide-no-carry": dict(module="MCDivide", cfg="MCDivideNoCarry", **MISTAKE),
    # shifts and powers
    "shift": dict(module="MCShift", min_states=60000),
    "shift-dec": dict(module="MCShift", cfg="MCShiftDec", min_states=15000),
    "shift-bin": dict(module="MCShift", cfg="MCShiftBin", min_states=15000),
    # texts
    "text-dec-bin": dict(module="MCText", cfg="MCTextDecBin", min_states=1000),
    "text-hex-dec": dict(module="MCText", cfg="MCTextHexDec", min_states=1000),
    "text-hex-bin": dict(module="MCText", cfg="MCTextHexBin", min_states=1000, **LARGE),
    "text-dec-dec": dict(module="MCText", cfg="MCTextDecDec", min_states=1000, **LARGE),
    "text-oct": dict(module="MCText", cfg="MCTextOct", min_states=1000, **LARGE),
    # conversion to decimal
    "decimal": dict(module="MCDecimal", min_states=300000),
    "decimal-big": dict(module="MCDecimal", cfg="MCDecimalBig", min_states=6000000, **LARGE),
    "decimal-as-found": dict(module="MCDecimal", cfg="MCDecimalAsFound", **MISTAKE),
}
for c in "b8 b16 b32 b64 d8 d16 d32 d64".split():
    MODELS["native-" + c] = dict(native(c.upper()), **(LARGE if c not in ("d8", "d64") else {}))
for n in "Add Sub Up Down Diag Rows Horner Order Pow".split():
    MODELS["any-" + n.lower()] = unbounded(n)
MODELS["any-pair-range"] = unbounded("PairRange", "PairRange", "PairStep")
for n, inv in dict(PairValue="PairValue", Longer="Longer", Scale="Scaled", Estimate="Estimate", Karatsuba="Karatsuba", Toom="Toom",
                    ToomFits="ToomFits").items():
    MODELS["any-" + n.lower()] = unbounded(n, inv, "Stay")

ASSUMPTIONS = [
    "rustc, LLVM and num-traits compile and behave as documented; one x86_64 target",
    "TLC evaluates the specification as written; the Java versions of the BigNat operators agree with their TLA+ definitions (compared in model bignat)",
    "The driver reports what the library returned: it reads digits through the public API and does no arithmetic on recorded values",
    "Not every executed history is recorded for TLC: a screen in the driver (own big-number arithmetic) picks the suspicious ones, one of each stratum and a share of the rest",
    "Number sizes, and in sampled strata the operands, are bounded as described in DESIGN.md",
]
