----------------------------- MODULE AlgDecimal -----------------------------
(***************************************************************************)
(* Conversion of a binary number to decimal (ubig.rs, to_decimal and       *)
(* build_decimal): numbers of fewer than Cutoff digits are converted by    *)
(* shifts and additions (taken from their contract), longer ones are split *)
(* by a power of the decimal radix out of a list prepared for the whole    *)
(* number, chosen by the length of the part.  The digits of the low part   *)
(* are filled up with zeros before those of the high part are appended.    *)
(*                                                                         *)
(* A state is a record: stack holds the parts still to be converted, from  *)
(* the least significant one on, each with the number of decimal digits it *)
(* has to fill (0: as many as it has), out the decimal digits so far.      *)
(***************************************************************************)
EXTENDS BigNat

CONSTANTS Radix,        \* of the binary digits
          DRadix,       \* of the decimal ones
          Places,       \* decimal places of a decimal digit
          Cutoff,
          NrPlaces(_),  \* nr_decimal_places: about how many decimal places so many binary digits need
          Fill          \* TRUE: low parts are filled up with zeros (FALSE: as found)

RECURSIVE Pick(_, _, _)
Pick(tot, nr, i) == IF 3 * nr < tot THEN Pick(tot, 2 * nr, i + 1) ELSE i
\* which power (the 2^i-th) of DRadix to split a number of n digits by
Index(n) == Pick(NrPlaces(n), Places, 0)
\* the list for a number of n digits has the powers 0 .. Index(n)
NrScales(n) == IF n < Cutoff THEN 0 ELSE Index(n) + 1
Scale(i) == NPow(DRadix, 2^i)

Fail(name, ok) == IF ok THEN {} ELSE {name}
DigitsOf(v) == [i \in 1..NLen(DRadix, v) |-> NMod(NDiv(v, NPow(DRadix, i - 1)), DRadix)]
Zeros(n) == [i \in 1..n |-> NZero]

Start(v) == [v |-> v, ns |-> NrScales(NLen(Radix, v)), stack |-> <<[v |-> v, fill |-> 0]>>, out |-> <<>>, bad |-> {}, br |-> <<>>, splits |-> 0]
Step(s) ==
  LET t == s.stack[1] rest == SubSeq(s.stack, 2, Len(s.stack)) n == NLen(Radix, t.v) IN
  IF n < Cutoff
  THEN LET d == DigitsOf(t.v)
           z == IF Fill /\ Len(d) < t.fill THEN Zeros(t.fill - Len(d)) ELSE <<>>
       IN  [s EXCEPT !.stack = rest, !.out = @ \o d \o z, !.bad = @ \cup Fail("fill", t.fill > 0 => Len(d) <= t.fill),
                     !.br = Append(@, <<"leaf", n, z # <<>>, t.fill>>)]
  ELSE LET i == Index(n) IN
       IF i >= s.ns THEN [s EXCEPT !.bad = @ \cup {"scale"}, !.stack = <<>>]
       ELSE LET q == NDiv(t.v, Scale(i)) r == NMod(t.v, Scale(i))
            IN  [s EXCEPT !.splits = @ + 1, !.bad = @ \cup Fail("no progress", q # NZero /\ NLt(r, t.v)) \cup Fail("fill", t.fill > 0 => 2^i < t.fill),
                          !.br = Append(@, <<"split", n, NLen(Radix, r) < Cutoff, NLen(Radix, q) < Cutoff, r = NZero>>),
                          !.stack = IF q = NZero THEN <<[v |-> r, fill |-> t.fill]>> \o rest
                                    ELSE <<[v |-> r, fill |-> 2^i], [v |-> q, fill |-> IF t.fill = 0 THEN 0 ELSE t.fill - 2^i]>> \o rest]
Done(s) == s.stack = <<>> \/ s.splits > 1000
RECURSIVE RunAll(_)
RunAll(s) == IF Done(s) THEN s ELSE RunAll(Step(s))

RECURSIVE ValD(_, _)
ValD(d, n) == IF n = 0 THEN NZero ELSE NAdd(ValD(d, n - 1), NMul(d[n], NPow(DRadix, n - 1)))
RECURSIVE Weight(_, _)
\* what the parts on the stack amount to, the first one starting at the k-th decimal digit
Weight(st, k) == IF st = <<>> THEN NZero ELSE NAdd(NMul(st[1].v, NPow(DRadix, k)), Weight(SubSeq(st, 2, Len(st)), k + st[1].fill))
Invariant(s) == /\ s.bad = {} /\ s.splits <= 1000
                /\ NAdd(ValD(s.out, Len(s.out)), Weight(s.stack, Len(s.out))) = s.v
                \* no leading zeros
                /\ s.stack = <<>> /\ s.out # <<>> => s.out[Len(s.out)] # NZero

\* By lengths alone: for a number of n digits, any part of up to n digits finds its power in the list and gets smaller
LengthOk(n, part) == part >= Cutoff => /\ Index(part) < NrScales(n)
                                       /\ NLeq(Scale(Index(part)), NPow(Radix, part - 1))
=============================================================================
