------------------------------ MODULE AlgText -------------------------------
(***************************************************************************)
(* Texts to digits and back (ubig.rs, from_str and fmt).  A text of base-B *)
(* characters is cut, from its end, into parts of the same length; the     *)
(* parts are digits themselves if the radix is a power of the base, or are *)
(* taken, first part first, into result * scale + part.  A number is       *)
(* written with the leading digit as short as it can be and the others at  *)
(* full width.                                                             *)
(*                                                                         *)
(* A state is a record: k = "direct" or "horner" (parsing) or "show"; txt  *)
(* the characters (as values), i the parts done, a the digits.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R,       \* radix of the digits
          Base,    \* of the text
          Part     \* characters per part or digit

RECURSIVE ValR(_, _)
ValR(a, n) == IF n = 0 THEN 0 ELSE ValR(a, n - 1) + a[n] * R^(n - 1)
Val(a) == ValR(a, Len(a))
RECURSIVE TextVal(_)
TextVal(t) == IF t = <<>> THEN 0 ELSE TextVal(SubSeq(t, 1, Len(t) - 1)) * Base + t[Len(t)]
RECURSIVE Drop(_)
Drop(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Drop(SubSeq(a, 1, Len(a) - 1))

NrParts(t) == (Len(t) + Part - 1) \div Part
\* rchunks: the i-th part from the end; the one at the front may be short
PartAt(t, i) == LET e == Len(t) - (i - 1) * Part b == e - Part + 1 IN SubSeq(t, IF b < 1 THEN 1 ELSE b, e)

Start(k, t, a) == [k |-> k, pc |-> "run", txt |-> t, i |-> 0, a |-> a, x |-> a]
\* mul_add_assign_digit with a factor that is not zero
RECURSIVE MulAdd(_, _, _)
MulAdd(a, f, c) == IF a = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>> ELSE <<(a[1] * f + c) % R>> \o MulAdd(Tail(a), f, (a[1] * f + c) \div R)
RECURSIVE Plain(_)
Plain(d) == IF d < Base THEN <<d>> ELSE Plain(d \div Base) \o <<d % Base>>
Padded(d) == LET p == Plain(d) IN [i \in 1..(IF Len(p) < Part THEN Part - Len(p) ELSE 0) |-> 0] \o p
Step(s) ==
  CASE s.k = "direct" -> IF s.i = NrParts(s.txt) THEN [s EXCEPT !.pc = "done", !.a = Drop(@)]
                         ELSE [s EXCEPT !.a = Append(@, TextVal(PartAt(s.txt, s.i + 1))), !.i = @ + 1]
    [] s.k = "horner" -> IF s.i = NrParts(s.txt) THEN [s EXCEPT !.pc = "done"]
                         ELSE [s EXCEPT !.a = MulAdd(@, Base^Part, TextVal(PartAt(s.txt, NrParts(s.txt) - s.i))), !.i = @ + 1]
    [] s.k = "show"   -> IF s.i = Len(s.a) THEN [s EXCEPT !.pc = "done", !.txt = IF s.a = <<>> THEN <<0>> ELSE @]
                         ELSE LET d == s.a[Len(s.a) - s.i] IN [s EXCEPT !.txt = @ \o (IF s.i = 0 THEN Plain(d) ELSE Padded(d)), !.i = @ + 1]
Canon(a) == a = Drop(a)
Invariant(s) ==
  /\ \A i \in 1..Len(s.a) : s.a[i] >= 0 /\ s.a[i] < R            \* parts fit digits
  /\ s.k = "direct" => LET n == IF s.i * Part < Len(s.txt) THEN s.i * Part ELSE Len(s.txt)
                       IN  Val(s.a) = TextVal(SubSeq(s.txt, Len(s.txt) - n + 1, Len(s.txt)))
  /\ s.k = "horner" => LET n == Len(s.txt) - (NrParts(s.txt) - s.i) * Part
                       IN  Val(s.a) = TextVal(SubSeq(s.txt, 1, n)) /\ Canon(s.a)
  /\ s.pc = "done" /\ s.k # "show" => Val(s.a) = TextVal(s.txt) /\ Canon(s.a)
  /\ s.pc = "done" /\ s.k = "show" => TextVal(s.txt) = Val(s.a) /\ (Len(s.txt) = 1 \/ s.txt[1] # 0)
=============================================================================
