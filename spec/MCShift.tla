------------------------------ MODULE MCShift -------------------------------
(* All shifts of all numbers of up to N digits by up to MaxShift bits;     *)
(* powers                                                                  *)
EXTENDS AlgShift
CONSTANTS N, MaxShift, MaxBase
VARIABLE s
Nums(n) == {a \in [1..n -> 0..(R - 1)] : n = 0 \/ a[n] # 0}
Init == \/ s \in [len : 0..N, n : 0..MaxShift]
        \/ s \in {PowStart(b, e) : b \in 0..MaxBase, e \in 0..9}
        \/ s \in {PowStart(b, e) : b \in 0..2, e \in 10..15}
Next == \/ "len" \in DOMAIN s /\ \E a \in Nums(s.len) : s' = [a |-> a, n |-> s.n]
        \/ "pc" \in DOMAIN s /\ s.pc # "done" /\ s' = PowStep(s)
Shifted == "a" \in DOMAIN s => ShlOk(s.a, s.n) /\ ShrOk(s.a, s.n)
Power == "pc" \in DOMAIN s => PowInv(s)
=============================================================================
