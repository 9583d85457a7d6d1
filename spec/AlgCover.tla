------------------------------ MODULE AlgCover ------------------------------
(***************************************************************************)
(* Operands for the library's algorithms, at the radices of the real       *)
(* types, chosen for the branches they make the algorithms take.           *)
(*                                                                         *)
(* Run with TLC -simulate.  Each step draws operands (by their blocks,     *)
(* with runs of extreme digits, sums and differences that cancel, products *)
(* that come out even or one short of it), runs the algorithm's module on  *)
(* them, and writes the operands, as calls for the library, to the file    *)
(* named by GENOUT if a new combination of neighbouring branches is taken  *)
(* (every Every-th is written regardless).  The replayed calls are judged  *)
(* by TraceBabs.  On the way the modules are checked at these radices:     *)
(* invariants NoFail and Right.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

CONSTANTS Every,
          Kind       \* "kara", "toom", "div", "bz", "dec"; "add", "sub", "short", "shl", "shr", "cmp" (digit loops)
Depth == atoi(IOEnv.GENDEPTH)      \* operands to be drawn

VARIABLES seen, case, n
vars == <<seen, case, n>>

TenPow(k) == NPow(NTen, k)
TheTypes == {"b8", "b16", "b32", "b64", "d8", "d16", "d32", "d64"}
TheRadix == [b8 |-> NPow2(8), b16 |-> NPow2(16), b32 |-> NPow2(32), b64 |-> NPow2(64),
             d8 |-> TenPow(2), d16 |-> TenPow(4), d32 |-> TenPow(9), d64 |-> TenPow(19)]
TheBytes == [b8 |-> 1, b16 |-> 2, b32 |-> 4, b64 |-> 8, d8 |-> 1, d16 |-> 2, d32 |-> 4, d64 |-> 8]
TheDecimal == [b8 |-> "d8", b16 |-> "d16", b32 |-> "d32", b64 |-> "d64"]
Places == [b8 |-> 2, b16 |-> 4, b32 |-> 9, b64 |-> 19]
RE(S) == RandomElement(S)
Chance(k) == RE(1..k) = 1

Kara(R) == INSTANCE AlgKaratsuba WITH Radix <- R
Toom(R) == INSTANCE AlgToom3 WITH Radix <- R, ClearScratch <- TRUE
Divide(R) == INSTANCE AlgDivide WITH Radix <- R, Cutoff <- 20, ClampEstimate <- TRUE, ScaleCarry <- TRUE

(***************************************************************************)
(* Operands of type t                                                      *)
(***************************************************************************)
RandomBytes(k) == NNorm([i \in 1..k |-> RE(0..255)])
Rand(R, k) == NMod(RandomBytes(k * Len(R)), NPow(R, k))
Special(R) == RE({NZero, NOne, NSub(R, NOne), NDiv(R, NTwo), NSub(NDiv(R, NTwo), NOne), NSub(R, NTwo), NMod(RandomBytes(8), R)})
\* Bound by quantification over singletons, a drawn value is drawn once; with LET it may be drawn at each use
The(S) == CHOOSE x \in S : TRUE
\* k equal digits
RunOf(R, d, k) == NMul(d, NDiv(NSub(NPow(R, k), NOne), NSub(R, NOne)))
\* k digits of one to four runs, some random
RECURSIVE Pattern(_, _)
Pattern(R, k) == IF k = 0 THEN NZero
                 ELSE The({NAdd(IF Chance(3) THEN Rand(R, j) ELSE RunOf(R, Special(R), j), NMul(NPow(R, j), Pattern(R, k - j))) :
                           j \in {IF Chance(3) THEN k ELSE RE(1..k)}})
Clip(R, v, k) == NMod(v, NPow(R, k))
Near(v) == CASE RE(1..3) = 1 -> v [] RE(1..2) = 1 -> NAdd(v, NOne) [] OTHER -> IF v = NZero THEN v ELSE NSub(v, NOne)
\* A block of b digits that has to do with the blocks in seq
Block(R, b, seq) ==
  IF seq = <<>> \/ Chance(3) THEN RE({Pattern(R, b), NZero, NSub(NPow(R, b), NOne), NOne})
  ELSE The({Clip(R, Near(RE({u, NAdd(u, w), NSub(NPow(R, b), Clip(R, u, b)), IF NLeq(w, u) THEN NSub(u, w) ELSE NSub(w, u), NDiv(u, NTwo)})), b) :
            u \in {seq[RE(1..Len(seq))]}, w \in {seq[RE(1..Len(seq))]}})

\* v with k digits, the leading one not zero
Top(R, v, k) == IF k = 0 THEN NZero ELSE IF NLeq(NPow(R, k - 1), v) THEN v ELSE NAdd(v, NMul(RE({NOne, NSub(R, NOne), NDiv(R, NTwo)}), NPow(R, k - 1)))
\* Two halves, the low one of sp digits
Halves(R, sp, k) == IF k <= sp THEN The({Top(R, v, k) : v \in {Block(R, k, <<>>)}})
                    ELSE The({NAdd(lo, NMul(NPow(R, sp), hi)) : <<lo, hi>> \in {<<lo, Top(R, v, k - sp)>> :
                              <<lo, v>> \in {<<lo, Clip(R, Block(R, k - sp, <<lo>>), k - sp)>> : lo \in {Block(R, sp, <<>>)}}}})
\* Three thirds, the lower ones of b digits
Join(R, b, k, p0, m1, pi) ==
  IF k <= b THEN Top(R, Clip(R, p0, k), k)
  ELSE IF k <= 2 * b THEN NAdd(p0, NMul(NPow(R, b), Top(R, Clip(R, m1, k - b), k - b)))
  ELSE NAdd(NAdd(p0, NMul(NPow(R, b), m1)), NMul(NPow(R, 2 * b), Top(R, Clip(R, pi, k - 2 * b), k - 2 * b)))
Thirds(R, b, k) ==
  The({Join(R, b, k, q[1], q[2], q[3]) : q \in {<<IF Chance(3) THEN Block(R, b, <<p[2], p[3]>>) ELSE p[1], p[2], p[3]>> :
       p \in {<<p[1], p[2], Block(R, b, p)>> : p \in {<<p0, Block(R, b, <<p0>>)>> : p0 \in {Block(R, b, <<>>)}}}}})

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* What is run: the calls, the branches, and whether the module found what it should
New(t, d, v) == [op |-> "new", d |-> d, t |-> t, x |-> NToDigits(TheRadix[t], TheBytes[t], v)]
Big(o, d, a, b) == [op |-> o, d |-> d, a |-> a, b |-> b, f |-> RE(0..5)]
Product(t, s) == <<New(t, 1, s.x)>> \o (IF s.kind = "square" THEN <<[op |-> "square", d |-> 2, a |-> 1]>> ELSE <<New(t, 2, s.y), Big("mul", 3, 1, 2)>>)

KaraCase(t, R) ==
  \E nx \in {RE({20, 21, 22, 23, RE(20..40), RE(20..127)})} :
  \E ny \in {IF Chance(2) THEN nx ELSE RE({20, 21, nx, nx + 1, RE(20..60), RE(20..160)})} :
  \E sq \in {Chance(3)} :
  \E x \in {Halves(R, (IF sq THEN nx + 1 ELSE Max2(nx, ny) + 1) \div 2, nx)} :
  \E y \in {IF sq THEN x ELSE Halves(R, (Max2(nx, ny) + 1) \div 2, ny)} :
  \E s \in {Kara(R)!RunAll(Kara(R)!Start(IF sq THEN "square" ELSE "mul", x, nx, y, IF sq THEN nx ELSE ny))} :
    case' = [calls |-> Product(t, s), br |-> <<s.kind>> \o s.br, w |-> 4, bad |-> s.bad, right |-> s.res = NMul(x, y), kind |-> s.kind]
ToomCase(t, R) ==
  \E nx \in {RE({128, 129, 130, RE(128..140), RE(128..200)})} :
  \E ny \in {IF Chance(2) THEN nx ELSE RE(128..nx)} :
  \E sq \in {Chance(3)} : \E sw \in {Chance(2)} :
  \E x \in {Thirds(R, (nx + 2) \div 3, nx)} :
  \E y \in {IF sq THEN x ELSE Thirds(R, (nx + 2) \div 3, ny)} :
  \E s \in {Toom(R)!RunAll(IF sq THEN Toom(R)!Start("square", x, nx, x, nx)
                          ELSE IF sw THEN Toom(R)!Start("mul", y, ny, x, nx) ELSE Toom(R)!Start("mul", x, nx, y, ny))} :
    case' = [calls |-> Product(t, s), br |-> <<s.kind>> \o s.br, w |-> 4, bad |-> s.bad, right |-> s.res = NMul(x, y), kind |-> s.kind]

\* num = q den + r with the quotient and the remainder chosen, or just numbers
Dividend(R, den, m, k) ==
  The({IF NLt(v, den) THEN NAdd(v, den) ELSE v : v \in {
       IF Chance(4) THEN Pattern(R, m + k)
       ELSE IF Chance(4) THEN \* as the denominator, and then the largest digits
            The({IF NLeq(y, x) THEN NSub(x, y) ELSE x : x \in {NAdd(NMul(den, NPow(R, k)), RE({NZero, NSub(NPow(R, k), NOne), NPow(R, k)}))},
                                                        y \in {RE({NOne, NZero, NPow(R, k)})}})
       ELSE NAdd(NMul(Pattern(R, k), den), RE({NZero, NOne, NSub(den, NOne), NMod(Pattern(R, m), den)}))}})
\* Denominators for which the estimates of quotient digits are worst: scaled, half the radix and then the largest digits
Hard(R, b, m) == The({NDiv(NAdd(NMul(v, NPow(R, m - 1)), NSub(NPow(R, m - 1), RE({NOne, NPow(R, m \div 2), NMod(Rand(R, 2), NPow(R, m - 1))}))),
                        NPow2(RE({0, b - 1, RE(0..(b - 1))}))) : v \in {NDiv(NAdd(R, RE({NZero, NOne, NTwo})), NTwo)}})
DivCase(t, R) ==
  \E m \in {IF Kind = "bz" THEN RE({20, 21, 22, 39, 40, 41, 45, 79, 80, 81, RE(20..100), RE(20..170)}) ELSE RE({1, 2, 2, 3, 3, 4, RE(3..19)})} :
  \E k \in {IF Kind = "bz" THEN RE({0, 1, m - 1, m, m + 1, RE(0..m), RE(0..(2 * m))}) ELSE RE(0..12)} :
  \E den \in {The({Top(R, v, m) : v \in {IF m > 1 /\ Chance(4) THEN Hard(R, 8 * TheBytes[t], m) ELSE Pattern(R, m)}})} :
  \E num \in {Dividend(R, den, m, k)} : \E nn \in {NLen(R, num)} :
  \E s \in {Divide(R)!DivWork(num, nn, den, m, NZero, nn - m + 1)} :
    case' = [calls |-> <<New(t, 1, num), New(t, 2, den), [op |-> "divrem", d |-> 3, e |-> 4, a |-> 1, b |-> 2], Big("div", 3, 1, 2), Big("rem", 4, 1, 2)>>,
             br |-> s.br, w |-> 5, bad |-> s.bad, right |-> s.quot = NDiv(num, den) /\ s.num = NMod(num, den), kind |-> Kind]

\* Numbers that have to do with the powers of ten by which they are split
ToDec(t) == INSTANCE AlgDecimal WITH Radix <- TheRadix[t], DRadix <- TheRadix[TheDecimal[t]], Places <- Places[t], Cutoff <- 16,
                                   NrPlaces <- LAMBDA m : (m * TheBytes[t] * 643) \div 267, Fill <- TRUE
RECURSIVE Grid(_, _, _, _)
\* k decimal digits in blocks of b, the least significant of which are likely 0, 1 or all nines
Grid(D, b, k, from) == IF k = 0 THEN NZero
  ELSE The({NAdd(IF from THEN RE({NZero, NOne, NSub(NPow(D, j), NOne), Pattern(D, j)}) ELSE Pattern(D, j), NMul(NPow(D, j), Grid(D, b, k - j, from))) : j \in {Min2(b, k)}})
DecNumber(t, m) == \* of about m binary digits
  LET D == TheRadix[TheDecimal[t]] k == (m * TheBytes[t] * 643) \div (267 * Places[t]) IN
  IF Chance(4) THEN Pattern(TheRadix[t], m)
  ELSE Near(Grid(D, 2^RE(0..5), k, Chance(2)))
DecCase(t) ==
  \E m \in {RE({15, 16, 17, RE(16..40), RE(16..130)})} : \E v \in {DecNumber(t, m)} :
  \E s \in {ToDec(t)!RunAll(ToDec(t)!Start(v))} :
    case' = [calls |-> <<New(t, 1, v), [op |-> "todec", d |-> 2, a |-> 1], [op |-> "insp", a |-> 2]>>
                       \o (IF Chance(3) THEN <<[op |-> "trip", d |-> 3, a |-> 1, t |-> RE(TheTypes), k |-> "d"]>> ELSE <<>>),
             br |-> [i \in 1..Len(s.br) |-> s.br[i]], w |-> 5, bad |-> s.bad, right |-> ToDec(t)!Done(s) /\ ToDec(t)!Invariant(s), kind |-> Kind]

\* Operands for the loops over digits; the branches are kinds of digits next to each other
DigitAt(R, v, i) == NMod(NDiv(v, NPow(R, i)), R)
DigitKind(R, v, i) == IF i >= NLen(R, v) THEN "-" ELSE
  The({CASE d = NZero -> "0" [] d = NOne -> "1" [] NAdd(d, NOne) = R -> "m" [] NLt(d, NDiv(R, NTwo)) -> "l" [] OTHER -> "u" : d \in {DigitAt(R, v, i)}})
Pairs(R) == \* two numbers that have to do with each other
  {<<p[1], Clip(R, v, 8)>> : <<p, v>> \in {<<p, CASE Chance(3) -> p[2] [] Chance(3) -> IF NLeq(p[1], p[2]) THEN NSub(p[2], p[1]) ELSE NSub(p[1], p[2])
                                                 [] Chance(2) -> Near(p[1]) [] OTHER -> NAdd(NMul(NPow(R, RE(0..4)), NDiv(p[1], NPow(R, RE(0..4)))), Near(p[2]))>> :
   p \in {<<Pattern(R, RE(0..7)), Pattern(R, RE(0..7))>>}}}
Limit(t) == NPow2(8 * TheBytes[t])
ShortN(t, R, x) == LET c == RE({NZero, NOne, NTwo, NSub(R, NOne), R, NAdd(R, NOne), NSub(Limit(t), NOne), NMod(x, R), NMod(x, Limit(t)), NSub(R, NMod(x, R)),
                                NDiv(R, NTwo), NOfInt(RE(1..200)), NMod(RandomBytes(TheBytes[t]), Limit(t)), NMod(RandomBytes(TheBytes[t]), Limit(t))})
                   IN  IF NLt(c, Limit(t)) THEN c ELSE NMod(c, Limit(t))
ShortOps == {"sadd", "ssub", "smul", "sdiv", "srem"}
ShortBoth(t, R) == \* a number and a machine integer: as drawn, a multiple of it or next to one, or one digit and the integer nearly equal
  {CASE Chance(3) \/ q[2] = NZero -> q [] Chance(3) -> <<Near(NMul(q[1], q[2])), q[2]>> [] Chance(2) -> <<Near(q[2]), q[2]>>
     [] OTHER -> <<NAdd(NMul(q[1], q[2]), NSub(q[2], NOne)), q[2]>> :
   q \in {<<x, n1>> : <<x, n1>> \in {<<x, ShortN(t, R, x)>> : x \in {Pattern(R, RE(0..6))}}}}
ShiftN(t, R, x) == LET w == 8 * TheBytes[t] l == w * NLen(R, x) IN
                   RE({0, 1, w - 1, w, w + 1, RE(0..w), RE(0..(3 * w)), l, RE(0..(l + 1)), IF l > 8 THEN l - RE(0..8) ELSE 1, RE(0..w) + w * RE(0..3)})
ShiftBoth(t, R) ==
  {IF Kind = "shl" \/ Chance(3) THEN q ELSE <<NAdd(NMul(q[1], NPow2(q[2])), RE({NZero, NOne, NSub(NPow2(q[2]), NOne)})), q[2]>> :
   q \in {<<x, n1>> : <<x, n1>> \in {<<x, ShiftN(t, R, x)>> : x \in {Pattern(R, RE(0..6))}}}}
Loop(name, R, x, y, v) == [i \in 1..(2 + Max2(NLen(R, x), Max2(NLen(R, y), NLen(R, v)))) |->
                           IF i = 1 THEN <<name>> ELSE <<DigitKind(R, x, i - 2), DigitKind(R, y, i - 2), DigitKind(R, v, i - 2)>>]
LoopCase(t, R) ==
  CASE Kind \in {"add", "sub", "cmp"} ->
       \E p \in Pairs(R) : \E q \in {IF Kind = "add" \/ Chance(6) THEN p ELSE IF Kind = "sub" THEN <<NAdd(p[1], p[2]), p[2]>> ELSE p} :
         case' = [calls |-> <<New(t, 1, q[1]), New(t, 2, q[2])>> \o
                            (IF Kind = "cmp" THEN <<[op |-> "cmp", a |-> 1, b |-> 2], [op |-> RE({"max", "min"}), d |-> 3, a |-> 1, b |-> 2]>>
                             ELSE <<Big(Kind, 3, 1, 2)>> \o (IF Chance(3) THEN <<Big(Kind, 4, 1, 1), [op |-> "cmp", a |-> 3, b |-> 4]>> ELSE <<>>)),
                  br |-> Loop(Kind, R, q[1], q[2], IF Kind = "add" THEN NAdd(q[1], q[2]) ELSE IF NLeq(q[2], q[1]) THEN NSub(q[1], q[2]) ELSE NZero),
                  w |-> 3, bad |-> {}, right |-> TRUE, kind |-> Kind]
    [] Kind = "short" ->
       \E q \in ShortBoth(t, R) : \E o \in {RE(ShortOps)} :
         case' = [calls |-> <<New(t, 1, q[1]), [op |-> o, d |-> RE({1, 2}), a |-> 1, n |-> q[2], f |-> RE(0..2), k |-> IF NLt(q[2], R) THEN RE({"dig", "int"}) ELSE "int"]>>,
                  br |-> Loop(o, R, q[1], q[2], CASE o = "sadd" -> NAdd(q[1], q[2]) [] o = "smul" -> NMul(q[1], q[2])
                                                  [] o = "ssub" -> IF NLeq(q[2], q[1]) THEN NSub(q[1], q[2]) ELSE NZero
                                                  [] q[2] = NZero -> NZero [] o = "sdiv" -> NDiv(q[1], q[2]) [] OTHER -> NMod(q[1], q[2])),
                  w |-> 3, bad |-> {}, right |-> TRUE, kind |-> Kind]
    [] OTHER ->
       \E q \in ShiftBoth(t, R) :
         case' = [calls |-> <<New(t, 1, q[1]), [op |-> Kind, d |-> RE({1, 2}), a |-> 1, n |-> NOfInt(q[2]), f |-> RE(0..2)]>>,
                  br |-> Loop(<<Kind, q[2] % (8 * TheBytes[t]) = 0, IF q[2] \div (8 * TheBytes[t]) < 3 THEN q[2] \div (8 * TheBytes[t]) ELSE 3>>, R, q[1], NZero,
                              IF Kind = "shl" THEN NMul(q[1], NPow2(q[2])) ELSE NDiv(q[1], NPow2(q[2]))),
                  w |-> 3, bad |-> {}, right |-> TRUE, kind |-> Kind]

Init == seen = {} /\ n = 0 /\ case = [calls |-> <<>>, br |-> <<>>, w |-> 0, bad |-> {}, right |-> TRUE, kind |-> ""]
\* The types that have code of their own
Class(t) == CASE t = "b64" -> 1 [] t = "d64" -> 2 [] t \in DOMAIN TheDecimal -> 3 [] OTHER -> 4
Windows(k, c) == {ToString(<<k, IF c.w = 4 THEN i ELSE 0, SubSeq(c.br, i, Min2(Len(c.br), i + c.w - 1))>>) : i \in 1..Len(c.br)}
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E t \in {RE(IF Kind = "dec" THEN DOMAIN TheDecimal ELSE TheTypes)} : \E R \in {TheRadix[t]} :
             /\ CASE Kind = "kara" -> KaraCase(t, R) [] Kind = "toom" -> ToomCase(t, R) [] Kind \in {"div", "bz"} -> DivCase(t, R) [] Kind = "dec" -> DecCase(t)
                  [] OTHER -> LoopCase(t, R)
             /\ seen' = seen \cup Windows(Class(t), case')
Spec == Init /\ [][Next]_vars

NoFail == case.bad = {}
Right == case.right
Put(c) == Serialize(ToJson(c) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* An action constraint, evaluated once for every step taken
Emit == (seen' # seen \/ n' % Every = 0) => Put(case'.calls)
Told == n = Depth => PrintT(<<"BRANCHES", Cardinality(seen)>>)
=============================================================================
