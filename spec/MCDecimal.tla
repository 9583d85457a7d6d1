----------------------------- MODULE MCDecimal ------------------------------
(* Conversion to decimal: all numbers of few small digits, and, at the     *)
(* radices of the real types, all lengths                                  *)
EXTENDS AlgDecimal, TLC
CONSTANTS Bits, MaxDig, Native
VARIABLE s
SmallRadix == NPow2(Bits)
SmallDRadix == NOfInt(10)
SmallNrPlaces(n) == (n * Bits * 643) \div (267 * 8)
Types == {[b |-> 1, p |-> 2], [b |-> 2, p |-> 4], [b |-> 4, p |-> 9], [b |-> 8, p |-> 19]}
Real(t) == INSTANCE AlgDecimal WITH Radix <- NPow2(8 * t.b), DRadix <- NPow(NTen, t.p), Places <- t.p, Cutoff <- 16,
                                    NrPlaces <- LAMBDA n : (n * t.b * 643) \div 267, Fill <- TRUE
Init == \/ s \in [len : 1..MaxDig]
        \/ s \in [t : Types, n : 16..Native]
Next == \/ "len" \in DOMAIN s /\ \E v \in {v \in 0..(2^(Bits * s.len) - 1) : v >= 2^(Bits * (s.len - 1))} : s' = Start(NOfInt(v))
        \/ "stack" \in DOMAIN s /\ ~ Done(s) /\ s' = Step(s)
Inv == "stack" \in DOMAIN s => Invariant(s)
Lengths == "t" \in DOMAIN s => \A part \in (IF s.n < 200 THEN 16..s.n ELSE {16, s.n \div 2, s.n - 1, s.n}) : Real(s.t)!LengthOk(s.n, part)
=============================================================================
