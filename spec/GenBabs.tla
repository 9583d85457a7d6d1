------------------------------ MODULE GenBabs -------------------------------
(***************************************************************************)
(* Behaviours of Babs on the real number types, for replay into the        *)
(* library.  Run with TLC -simulate: a behaviour is a random walk of the   *)
(* specification, where the next call is chosen knowing the state: shifts  *)
(* by just the length of a number, small operands next to the number's own *)
(* low digits, texts of the numbers with or without a flaw, comparison of  *)
(* equal numbers with different histories, divisions that come out even or *)
(* one short of it, subtractions that just do or do not underflow.         *)
(* Each behaviour is appended to the file named by GENOUT as one line of   *)
(* JSON.  What the library makes of it is judged by TraceBabs.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

CONSTANTS NRegs, Depth, Cap      \* Cap: bytes of the largest number made

VARIABLES reg, out, t0, hist
vars == <<reg, out, t0, hist>>

TenPow(n) == NPow(NTen, n)
TheTypes == {"b8", "b16", "b32", "b64", "d8", "d16", "d32", "d64"}
BinTypes == {"b8", "b16", "b32", "b64"}
TheRadix == [b8 |-> NPow2(8), b16 |-> NPow2(16), b32 |-> NPow2(32), b64 |-> NPow2(64),
             d8 |-> TenPow(2), d16 |-> TenPow(4), d32 |-> TenPow(9), d64 |-> TenPow(19)]
TheBytes == [b8 |-> 1, b16 |-> 2, b32 |-> 4, b64 |-> 8, d8 |-> 1, d16 |-> 2, d32 |-> 4, d64 |-> 8]
TheLimit == [t \in TheTypes |-> NPow2(8 * TheBytes[t])]
TheDecimal == [b8 |-> "d8", b16 |-> "d16", b32 |-> "d32", b64 |-> "d64"]

B == INSTANCE Babs WITH Types <- TheTypes, RadixOf <- TheRadix, BytesOf <- TheBytes, LimitOf <- TheLimit,
       BinaryTypes <- BinTypes, DecimalOf <- TheDecimal, Regs <- 1..NRegs

RE(S) == RandomElement(S)
Regs == 1..NRegs
R == TheRadix[t0]
Chance(n) == RE(1..n) = 1

\* A number given by its shape: m * R^k + l or m * R^k - l, or a random one
RandomBytes(n) == NNorm([i \in 1..n |-> RE({0, 0, 1, 127, 128, 255, RE(0..255)})])
Shape == LET k == RE(0..(Cap \div (4 * TheBytes[t0])))
             m == RE({NOne, NTwo, NOfInt(RE(1..200)), NSub(R, NOne)})
             l == RE({NZero, NOne, NTwo, NSub(R, NOne), R})
             p == NMul(m, NPow(R, k))
         IN  IF Chance(3) THEN RandomBytes(RE(0..(Cap \div 3)))
             ELSE IF Chance(2) THEN NAdd(p, l) ELSE IF NLeq(l, p) THEN NSub(p, l) ELSE p

Same(t) == {r \in Regs : reg[r].t = t}
Mine == Same(t0)                       \* registers of the behaviour's type; never empty
Two == <<RE(Mine), RE(Mine)>>
\* Preferably a pair with equal values, or ordered
EqualPair == LET S == {<<x, y>> \in Mine \X Mine : x # y /\ reg[x].v = reg[y].v} IN IF S = {} THEN Two ELSE RE(S)
Ordered == LET p == Two IN IF NLeq(reg[p[2]].v, reg[p[1]].v) \/ Chance(8) THEN p ELSE <<p[2], p[1]>>

Clip(n) == IF NLt(n, TheLimit[t0]) THEN n ELSE NMod(n, TheLimit[t0])
Near(n) == LET k == RE(0..2) IN IF Chance(2) THEN NAdd(n, NOfInt(k)) ELSE IF NLeq(NOfInt(k), n) THEN NSub(n, NOfInt(k)) ELSE n
\* A small operand that means something to the number v
Scalar(v) == Clip(Near(RE({NMod(v, R), NMod(v, TheLimit[t0]), R, NSub(R, NMod(v, R)), NZero, NOne, TheLimit[t0], NDiv(R, NTwo), RandomBytes(TheBytes[t0])})))
\* A shift that means something to it
BitLen(v) == 8 * Len(v)
Shift(v) == LET w == 8 * TheBytes[t0] IN
            NOfInt(RE({0, 1, w - 1, w, w + 1, RE(0..w), RE(0..(3 * w)), BitLen(v), IF BitLen(v) > 7 THEN BitLen(v) - RE(0..8) ELSE 1, BitLen(v) + RE(0..70)}))

Flags == [w |-> RE({-1, RE(0..30)}), z |-> RE({0, 0, 1}), p |-> RE({0, 0, 1}), h |-> RE({0, 1}),
          al |-> RE({"", "<", "^", ">"}), fc |-> RE({" ", "*", "0"}), pr |-> -1]
Flaw(s) == LET i == RE(1..(Len(s) + 1)) IN SubSeq(s, 1, i - 1) \o RE({"+", "-", " ", "g", "x", "_", ":"}) \o SubSeq(s, i, Len(s))
TextOf(v) == LET z == Repeat("0", RE({0, 0, 1, 20}))
             IN  CASE RE(1..3) = 1 -> "0x" \o z \o HexLower(v)
                   [] RE(1..2) = 1 -> "0x" \o z \o HexUpper(v)
                   [] OTHER -> z \o Dec(v)

Big(o, p) == [op |-> o, d |-> RE({p[1], RE(Regs)}), a |-> p[1], b |-> p[2], f |-> RE(0..5)]

Kinds == <<"new", "from", "const", "clone", "parse", "add", "add", "sub", "sub", "sub", "mul", "mul", "div", "div", "rem", "even", "divrem", "divrem",
           "remas", "short", "short", "short", "shl", "shr", "shr", "pow", "square", "max", "cmp", "cmp", "insp", "show", "trip", "todec">>

PickCall(k) ==
  LET a == RE(Mine) v == reg[a].v d == RE(Regs) IN
  CASE k = "new"   -> [op |-> "new", d |-> d, t |-> t0, x |-> NToDigits(R, TheBytes[t0], Shape) \o [i \in 1..(TheBytes[t0] * RE({0, 0, 0, 1, 2})) |-> 0], f |-> RE({0, 0, 1, 40})]
    [] k = "from"  -> [op |-> "from", d |-> d, t |-> t0, n |-> Scalar(v)]
    [] k = "const" -> [op |-> RE({"zero", "one"}), d |-> d, t |-> t0]
    [] k = "clone" -> [op |-> "clone", d |-> d, a |-> a, f |-> RE(0..1)]
    [] k = "parse" -> [op |-> "parse", d |-> d, t |-> t0, s |-> LET s == TextOf(Near(v)) IN IF Chance(3) THEN Flaw(s) ELSE s]
    [] k \in {"add", "mul", "div", "rem"} -> Big(k, Two)
    [] k = "sub"   -> Big("sub", IF Chance(4) THEN EqualPair ELSE Ordered)
    \* the other operand made to measure: a product, or one less, is in hist already as calls
    [] k = "even"  -> LET p == Ordered IN IF reg[p[2]].v = NZero THEN Big("rem", p) ELSE [Big("div", p) EXCEPT !.op = RE({"div", "rem"})]
    [] k = "divrem" -> LET p == Ordered e == RE(Regs) IN [op |-> "divrem", d |-> (IF e = p[1] THEN 1 + (p[1] % NRegs) ELSE p[1]), e |-> e, a |-> p[1], b |-> p[2]]
    [] k = "remas" -> LET p == Ordered IN [op |-> "remas", d |-> p[1], a |-> p[1], b |-> p[2]]
    [] k = "short" -> LET n == Scalar(v) IN [op |-> RE(B!ShortOps), d |-> RE({a, d}), a |-> a, n |-> n, f |-> RE(0..2),
                                              k |-> IF NLt(n, R) THEN RE({"dig", "int"}) ELSE "int"]
    [] k \in {"shl", "shr"} -> [op |-> k, d |-> RE({a, d}), a |-> a, n |-> Shift(v), f |-> RE(0..2)]
    [] k = "pow"   -> [op |-> "pow", d |-> RE({a, d}), a |-> a, n |-> NOfInt(RE(0..5)), f |-> RE(0..1)]
    [] k = "square" -> [op |-> "square", d |-> d, a |-> a]
    [] k = "max"   -> LET p == Two IN [op |-> RE({"max", "min"}), d |-> d, a |-> p[1], b |-> p[2]]
    [] k = "cmp"   -> LET p == EqualPair IN [op |-> "cmp", a |-> p[1], b |-> p[2]]
    [] k = "insp"  -> [op |-> "insp", a |-> RE(Regs)]
    [] k = "show"  -> LET r == RE(Regs) IN [op |-> "show", a |-> r, k |-> IF reg[r].t \in BinTypes THEN RE({"d", "x", "X"}) ELSE "d", fl |-> Flags]
    [] k = "trip"  -> LET r == RE(Regs) IN [op |-> "trip", d |-> d, a |-> r, t |-> RE({t0, t0, RE(TheTypes)}), k |-> IF reg[r].t \in BinTypes THEN RE({"d", "x", "X"}) ELSE "d"]
    [] k = "todec" -> IF t0 \in BinTypes THEN [op |-> "todec", d |-> d, a |-> a] ELSE [op |-> "square", d |-> d, a |-> a]

\* Calls that would make numbers out of bounds are not made
TooBig(e) ==
  \/ e.op \in {"mul"} /\ Len(reg[e.a].v) + Len(reg[e.b].v) > Cap
  \/ e.op \in {"add"} /\ Len(reg[e.a].v) + 1 > Cap
  \/ e.op \in {"square"} /\ 2 * Len(reg[e.a].v) > Cap
  \/ e.op = "pow" /\ NToInt(e.n) * Len(reg[e.a].v) > Cap
  \/ e.op = "shl" /\ Len(reg[e.a].v) * 8 + NToInt(e.n) > 8 * Cap
\* The behaviour's type must stay present
LosesType(e) == /\ "d" \in DOMAIN e
                /\ LET t == IF e.op = "todec" THEN TheDecimal[t0] ELSE IF "t" \in DOMAIN e THEN e.t ELSE t0
                   IN  t # t0 /\ Mine \subseteq {e.d}

Init == /\ t0 \in TheTypes
        /\ reg = [r \in Regs |-> B!Num(t0, NZero)]
        /\ out = [o |-> "ok", r |-> <<>>]
        /\ hist = [i \in Regs |-> [op |-> "zero", d |-> i, t |-> t0]]

Fit(e) == IF e.op \in B!ShortOps /\ e.k = "dig" /\ ~ NLt(e.n, R) THEN [e EXCEPT !.k = "int"] ELSE e
Take(e) == IF ~ B!Callable(e, reg) \/ TooBig(e) \/ LosesType(e) THEN [op |-> "insp", a |-> 1] ELSE e
\* Quantifying over a singleton draws the call once
Next == \E k \in {IF Len(hist) < 2 * NRegs THEN RE({"new", "parse"}) ELSE Kinds[RE(1..Len(Kinds))]} :
        \E c \in {PickCall(k)} :
        \E e \in {Take(Fit(c))} :
            /\ B!Do(e)
            /\ hist' = Append(hist, e)
            /\ UNCHANGED t0
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth =>
          Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* On the way, the state stays one of the library's
Canonical == \A r \in Regs : IsBigNat(reg[r].v)
=============================================================================
