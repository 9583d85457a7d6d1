------------------------------ MODULE MCDivide ------------------------------
(* All pairs of operands of the given lengths at a small radix, or all of  *)
(* those with digits from a given set.  The radix is even, as those of all *)
(* of the library's digits: with an odd one a denominator whose scaling is *)
(* undone keeps a leading digit that could be doubled.                     *)
EXTENDS AlgDivide
CONSTANTS R, Lens,     \* length of the denominator -> greatest length of the numerator
          Digits       \* the digits of the operands
VARIABLES s
SmallRadix == NOfInt(R)
RECURSIVE AllVals(_)
AllVals(n) == IF n = 0 THEN {0} ELSE {v * R + d : v \in AllVals(n - 1), d \in Digits}
Vals(n) == {v \in AllVals(n) : v >= R^(n - 1)}
Init == \E m \in DOMAIN Lens : \E n \in m..Lens[m] : s = [pc |-> "len", m |-> m, n |-> n]
Begin(num, n, den, m) == IF m = 2 THEN PairStart(num, n, den)
                         ELSE IF m < Cutoff THEN LongStart(num, n, den, m, NZero, n - m + 1)
                         ELSE BZStart(num, n, den, m, NZero)
Next == \/ /\ s.pc = "len" /\ \E v \in Vals(s.m) : s' = [pc |-> "den", m |-> s.m, n |-> s.n, den |-> NOfInt(v)]
        \/ /\ s.pc = "den" /\ \E w \in Vals(s.n) :
                /\ NLeq(s.den, NOfInt(w)) \/ s.m = 2
                /\ \/ s' = Begin(NOfInt(w), s.n, s.den, s.m)
                   \* the quotient array may be a digit short if the first quotient digit is zero
                   \/ /\ s.m > 2 /\ s.m < Cutoff /\ s.n > s.m /\ NLt(Hi(NOfInt(w), s.n - s.m), s.den)
                      /\ s' = LongStart(NOfInt(w), s.n, s.den, s.m, NZero, s.n - s.m)
        \/ /\ s.pc \in {"pair", "pairend", "first", "digit", "longend"} /\ s' = StepDiv(s)
        \/ /\ s.pc \in {"block", "bzend"} /\ s' = StepBZ(s)
Running == s.pc \notin {"len", "den"}
NoFail == Running => NoFailure(s)
Inv == Running => PairInv(s) /\ LongInv(s) /\ BZInv(s)
Quotient == Running => QuotientOk(s)

LensSchool == 2 :> 5 @@ 3 :> 6
LensBZ2 == 2 :> 9 @@ 3 :> 9 @@ 4 :> 10 @@ 5 :> 11 @@ 6 :> 12
LensDec == 2 :> 4 @@ 3 :> 4
LensBZ4 == 4 :> 5
LensBZ10 == 4 :> 6
AllDigits == 0..(R - 1)
Corners == {0, 1, R \div 2, R - 1}
Corners3 == {0, R \div 2, R - 1}
=============================================================================
