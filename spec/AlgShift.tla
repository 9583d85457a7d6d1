------------------------------ MODULE AlgShift ------------------------------
(***************************************************************************)
(* Shifts of whole numbers (ubig/ops.rs), and powers, which the shifts of  *)
(* decimal numbers by many bits use.                                       *)
(*                                                                         *)
(* A shift of a binary number goes by whole digits and within digits; one  *)
(* of a decimal number is done directly up to Direct bits and otherwise by *)
(* multiplication with, or division by, a power of two.  A right shift     *)
(* that leaves nothing is recognized by the number of digits.  What a loop *)
(* over the digits does is taken from AlgKernels.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bits,      \* of the machine word
          R,         \* radix: 2^Bits, or less for a decimal digit
          Direct     \* greatest shift of a decimal number done directly
Binary == R = 2^Bits

RECURSIVE ValR(_, _)
ValR(a, n) == IF n = 0 THEN 0 ELSE ValR(a, n - 1) + a[n] * R^(n - 1)
Val(a) == ValR(a, Len(a))
RECURSIVE Digits(_)
Digits(v) == IF v = 0 THEN <<>> ELSE <<v % R>> \o Digits(v \div R)
RECURSIVE Drop(_)
Drop(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Drop(SubSeq(a, 1, Len(a) - 1))
Zeros(n) == [i \in 1..n |-> 0]
\* shl_carry_assign_within_digit, shr_carry_assign_within_digit
Up(a, s) == LET v == Val(a) * 2^s IN [a |-> [i \in 1..Len(a) |-> (v \div R^(i - 1)) % R], c |-> v \div R^Len(a)]
Down(a, s) == LET v == Val(a) \div 2^s IN Drop([i \in 1..Len(a) |-> (v \div R^(i - 1)) % R])

\* TLC leaves 0^0 undefined
Pw(b, e) == IF e = 0 THEN 1 ELSE b^e

(* pow: a machine of its own.  result * power^(2n) = base^exp, or so *)
PowStart(b, e) == IF e <= 2 THEN [pc |-> "done", b |-> b, e |-> e, r |-> CASE e = 0 -> 1 [] e = 1 -> b [] e = 2 -> b * b, p |-> b, n |-> 0]
                  ELSE [pc |-> "pow", b |-> b, e |-> e, r |-> IF e % 2 = 0 THEN 1 ELSE b, p |-> b, n |-> e \div 2]
PowStep(s) == IF s.n = 0 THEN [s EXCEPT !.pc = "done"]
              ELSE LET p == s.p * s.p IN [s EXCEPT !.p = p, !.r = IF s.n % 2 # 0 THEN @ * p ELSE @, !.n = @ \div 2]
PowInv(s) == IF s.pc = "done" THEN s.r = Pw(s.b, s.e)
             ELSE s.r * Pw(s.p, 2 * s.n) = Pw(s.b, s.e)

Shl(a, n) ==
  IF a = <<>> THEN a
  ELSE IF Binary
  THEN LET low == n % Bits high == n \div Bits
           u == IF low # 0 THEN Up(a, low) ELSE [a |-> a, c |-> 0]
       IN  Zeros(high) \o (IF u.c # 0 THEN Append(u.a, u.c) ELSE u.a)
  ELSE IF n <= Direct
  THEN LET u == Up(a, n) IN IF n = 0 THEN a ELSE IF u.c # 0 THEN Append(u.a, u.c) ELSE u.a
  ELSE Digits(Val(a) * 2^n)
Shr(a, n) ==
  IF Binary
  THEN LET low == n % Bits high == n \div Bits
           b == IF high >= Len(a) THEN <<>> ELSE SubSeq(a, high + 1, Len(a))
       IN  IF low # 0 THEN Down(b, low) ELSE b
  ELSE IF n <= Direct THEN Down(a, n)
  ELSE IF n \div Bits >= Len(a) THEN <<>>
  ELSE Digits(Val(a) \div 2^n)
CarryOk(a, n) == \* the carry out of a loop is a digit
  LET s == IF Binary THEN n % Bits ELSE n IN (Binary \/ n <= Direct) => Up(a, s).c < R
ShlOk(a, n) == Val(Shl(a, n)) = Val(a) * 2^n /\ Shl(a, n) = Drop(Shl(a, n)) /\ CarryOk(a, n)
ShrOk(a, n) == Val(Shr(a, n)) = Val(a) \div 2^n /\ Shr(a, n) = Drop(Shr(a, n))
=============================================================================
