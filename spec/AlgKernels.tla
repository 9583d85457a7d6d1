----------------------------- MODULE AlgKernels -----------------------------
(***************************************************************************)
(* The digit loops below the library's algorithms, one digit per step:     *)
(* addition and subtraction in place with their carries and the ways they  *)
(* stop early, reversed subtraction, doubling, multiplication by a digit   *)
(* and by a pair of digits with its two carries, schoolbook multiplication *)
(* and squaring, division by a digit and by three, shifts within digits,   *)
(* and the operations with an integer that is a decimal digit too large.   *)
(* They justify the contracts in AlgBase.                                  *)
(*                                                                         *)
(* Arrays are sequences of digits 0..R-1, least significant first.         *)
(* A state is a record: k names the loop, pc the place in it, a is the     *)
(* array worked on, x and y what it started from, i the digit to be done,  *)
(* c the carry, d a second one.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R

RECURSIVE ValR(_, _)
ValR(a, n) == IF n = 0 THEN 0 ELSE ValR(a, n - 1) + a[n] * R^(n - 1)
Val(a) == ValR(a, Len(a))
Lo(a, n) == ValR(a, n)                                     \* a[..n]
Hi(a, n) == Val(SubSeq(a, n + 1, Len(a)))                  \* a[n..]
RECURSIVE Drop(_)
Drop(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Drop(SubSeq(a, 1, Len(a) - 1))
Canon(a) == a = Drop(a)
Bit(b) == IF b THEN 1 ELSE 0

\* Digit::inc, dec, add_carry_assign, sub_carry_assign, mul_carry_assign, ...: result and carry
DInc(v) == IF v = R - 1 THEN <<0, 1>> ELSE <<v + 1, 0>>
DDec(v) == IF v = 0 THEN <<R - 1, 1>> ELSE <<v - 1, 0>>
DAdd(v, w, c) == <<(v + w + c) % R, (v + w + c) \div R>>
DSub(v, w, c) == IF v < w + c THEN <<v + R - w - c, 1>> ELSE <<v - w - c, 0>>
DMul(v, f, c) == <<(v * f + c) % R, (v * f + c) \div R>>
DAddProd(v, f, g, c) == <<(v + f * g + c) % R, (v + f * g + c) \div R>>
DDiv(v, f, c) == <<(c * R + v) \div f, (c * R + v) % f>>
DShl(v, s, c) == <<(v * 2^s + c) % R, (v * 2^s + c) \div R>>
DShr(v, s, c) == <<(c * R + v) \div 2^s, (c * R + v) % 2^s>>

Start(k, x, y, f, g) == [k |-> k, pc |-> "run", a |-> x, x |-> x, y |-> y, f |-> f, g |-> g, i |-> 1, j |-> 1, c |-> 0, d |-> 0, p |-> 0, ok |-> TRUE]

\* The loops.  Done(s, a, c): the array and the carry out
Done(s, a, c) == [s EXCEPT !.pc = "done", !.a = a, !.c = c]

\* add::add_assign_big, then inc_assign on the rest, which stops at the first digit that does not overflow.  Len(y) <= Len(x)
StepAdd(s) ==
  IF s.pc = "run"
  THEN IF s.i > Len(s.y) THEN IF s.c = 0 THEN Done(s, s.a, 0) ELSE [s EXCEPT !.pc = "inc"]
       ELSE LET r == DAdd(s.a[s.i], s.y[s.i], s.c) IN [s EXCEPT !.a[s.i] = r[1], !.c = r[2], !.i = @ + 1]
  ELSE IF s.i > Len(s.a) THEN Done(s, s.a, 1)
       ELSE LET r == DInc(s.a[s.i]) IN IF r[2] = 0 THEN Done(s, [s.a EXCEPT ![s.i] = r[1]], 0) ELSE [s EXCEPT !.a[s.i] = r[1], !.i = @ + 1]
InvAdd(s) == LET k == s.i - 1 IN
  IF s.pc = "done" THEN Val(s.x) + Val(s.y) = Val(s.a) + s.c * R^Len(s.a)
  ELSE /\ Lo(s.x, k) + ValR(s.y, IF k < Len(s.y) THEN k ELSE Len(s.y)) = Lo(s.a, k) + s.c * R^k /\ Hi(s.a, k) = Hi(s.x, k) /\ s.c \in 0..1

\* sub::sub_assign_big, then dec_assign on the rest; the result's length without leading zeros, or underflow.
\* dec_assign reports one digit less if just its last digit became zero; more may have
StepSub(s) ==
  IF s.pc = "run"
  THEN IF s.i > Len(s.y) THEN IF s.c = 0 THEN Done(s, Drop(s.a), 0) ELSE [s EXCEPT !.pc = "dec"]
       ELSE LET r == DSub(s.a[s.i], s.y[s.i], s.c) IN [s EXCEPT !.a[s.i] = r[1], !.c = r[2], !.i = @ + 1]
  ELSE IF s.i > Len(s.a) THEN Done([s EXCEPT !.ok = FALSE], s.a, 1)
       ELSE LET r == DDec(s.a[s.i])
            IN  IF r[2] = 0
                THEN Done(s, Drop(IF s.i = Len(s.a) /\ r[1] = 0 THEN SubSeq(s.a, 1, s.i - 1) ELSE [s.a EXCEPT ![s.i] = r[1]]), 0)
                ELSE [s EXCEPT !.a[s.i] = r[1], !.i = @ + 1]
InvSub(s) == LET k == s.i - 1 IN
  IF s.pc = "done"
  THEN /\ s.ok = (Val(s.y) <= Val(s.x))
       /\ s.ok => Val(s.a) = Val(s.x) - Val(s.y) /\ Canon(s.a)
       /\ ~ s.ok => Val(s.a) = Val(s.x) - Val(s.y) + R^Len(s.x)
  ELSE /\ Lo(s.x, k) - ValR(s.y, IF k < Len(s.y) THEN k ELSE Len(s.y)) = Lo(s.a, k) - s.c * R^k /\ Hi(s.a, k) = Hi(s.x, k)

\* sub::sub_assign_digit(x, f), x without leading zeros: what it returns is the length of the difference
StepSubDigit(s) ==
  IF s.f = 0 THEN Done(s, s.a, 0)
  ELSE IF s.a = <<>> THEN Done([s EXCEPT !.ok = FALSE], s.a, 1)
  ELSE IF s.pc = "run"
  THEN LET r == DSub(s.a[1], s.f, 0)
       IN  IF r[2] = 0 THEN Done(s, Drop([s.a EXCEPT ![1] = r[1]]), 0) ELSE [s EXCEPT !.a[1] = r[1], !.i = 2, !.c = 1, !.pc = "dec"]
  ELSE IF s.i > Len(s.a) THEN Done([s EXCEPT !.ok = FALSE], s.a, 1)
  ELSE LET r == DDec(s.a[s.i])
       IN  IF r[2] = 0 \* no search for more leading zeros here
           THEN Done(s, IF s.i = Len(s.a) /\ r[1] = 0 THEN SubSeq(s.a, 1, s.i - 1) ELSE [s.a EXCEPT ![s.i] = r[1]], 0)
           ELSE [s EXCEPT !.a[s.i] = r[1], !.i = @ + 1]
InvSubDigit(s) == s.pc = "done" /\ Canon(s.x) =>
  /\ s.ok = (s.f <= Val(s.x))
  /\ s.ok => Val(s.a) = Val(s.x) - s.f /\ Canon(s.a)

\* rsub::rsub_assign_big: y - a over a, equal lengths
StepRsub(s) ==
  IF s.i > Len(s.a) THEN IF s.c = 1 THEN Done([s EXCEPT !.ok = FALSE], s.a, 1) ELSE Done(s, Drop(s.a), 0)
  ELSE LET r == DSub(s.y[s.i], s.a[s.i], s.c) IN [s EXCEPT !.a[s.i] = r[1], !.c = r[2], !.i = @ + 1]
InvRsub(s) == LET k == s.i - 1 IN
  IF s.pc = "done" THEN s.ok = (Val(s.x) <= Val(s.y)) /\ (s.ok => Val(s.a) = Val(s.y) - Val(s.x))
  ELSE Lo(s.y, k) - Lo(s.x, k) = Lo(s.a, k) - s.c * R^k

\* mul::double_carry_assign; shl by s.f bits is the same with a shift; mul_add_assign_digit with a factor
StepUp(s) ==
  IF s.i > Len(s.a) THEN Done(s, s.a, s.c)
  ELSE LET r == IF s.k = "shl" THEN DShl(s.a[s.i], s.f, s.c) ELSE DMul(s.a[s.i], s.f, s.c)
       IN  [s EXCEPT !.a[s.i] = r[1], !.c = r[2], !.i = @ + 1]
Factor(s) == IF s.k = "shl" THEN 2^s.f ELSE s.f
InvUp(s) == LET k == IF s.pc = "done" THEN Len(s.a) ELSE s.i - 1 IN
  /\ Lo(s.x, k) * Factor(s) + s.g = Lo(s.a, k) + s.c * R^k
  /\ s.c < R \* the carry is itself a digit

\* div::div_assign_digit, div3_carry_assign (f = 3, carry in g), shr by s.f bits: from the top
StepDown(s) ==
  IF s.i > Len(s.a) THEN Done(s, Drop(s.a), s.c)
  ELSE LET n == Len(s.a) + 1 - s.i
           r == IF s.k = "shr" THEN DShr(s.a[n], s.f, s.c) ELSE DDiv(s.a[n], s.f, s.c)
       IN  [s EXCEPT !.a[n] = r[1], !.c = r[2], !.i = @ + 1]
Divisor(s) == IF s.k = "shr" THEN 2^s.f ELSE s.f
InvDown(s) == LET n == Len(s.x) + 1 - s.i IN
  IF s.pc = "done" THEN s.g * R^Len(s.x) + Val(s.x) = Val(s.a) * Divisor(s) + s.c /\ s.c < Divisor(s) /\ Canon(s.a)
  ELSE /\ s.g * R^(Len(s.x) - n) + Hi(s.x, n) = Hi(s.a, n) * Divisor(s) + s.c /\ s.c < Divisor(s)
       /\ \A m \in (n + 1)..Len(s.a) : s.a[m] < R        \* the quotient digits are digits

\* mul::mul_pair_add_assign_digit(x, f, g, offset p): fac_low f, fac_high g.  c: carry0, d: add_one
StepPair(s) ==
  IF s.pc = "run"
  THEN LET r == DMul(s.a[1], s.f, s.c) IN [s EXCEPT !.p = s.a[1], !.a[1] = r[1], !.c = r[2], !.i = 2, !.pc = "more", !.d = 0]
  ELSE IF s.i > Len(s.a)
  THEN LET r == DMul(s.p, s.g, s.c)
           h == IF s.d = 1 THEN DInc(r[2]) ELSE <<r[2], 0>>
       IN  [Done(s, s.a \o <<r[1], h[1]>>, 0) EXCEPT !.ok = h[2] = 0]
  ELSE LET r == DMul(s.p, s.g, s.c)                       \* prev * fac_high + carry0: low part, and the new carry0
           h == IF s.d = 1 THEN DInc(r[2]) ELSE <<r[2], 0>>
           q == DMul(s.a[s.i], s.f, r[1])
           t == DAdd(h[1], q[2], 0)
       IN  [s EXCEPT !.p = s.a[s.i], !.a[s.i] = q[1], !.c = t[1], !.d = IF h[2] = 1 \/ t[2] = 1 THEN 1 ELSE 0, !.i = @ + 1,
                     !.ok = @ /\ h[2] + t[2] <= 1]
InvPair(s) == LET k == s.i - 1 IN
  /\ s.ok
  /\ s.pc = "done" => Val(s.x) * (s.f + R * s.g) + s.j = Val(s.a)
  /\ s.pc = "more" => Lo(s.x, k) * s.f + R * Lo(s.x, k - 1) * s.g + s.j = Lo(s.a, k) + (s.c + R * s.d) * R^k

\* mul::long::mul_big_long_into: x times y into the array z (kept in a), row by row.  j: digit of y, i: digit of x
StepLong(s) ==
  IF s.j > Len(s.y) THEN Done(s, s.a, 0)
  ELSE IF s.i > Len(s.x) THEN [s EXCEPT !.a[s.j + Len(s.x)] = s.c, !.j = @ + 1, !.i = 1, !.c = 0]
  ELSE LET r == DAddProd(s.a[s.i + s.j - 1], s.x[s.i], s.y[s.j], s.c) IN [s EXCEPT !.a[s.i + s.j - 1] = r[1], !.c = r[2], !.i = @ + 1]
InvLong(s) ==
  IF s.pc = "done" THEN Val(s.a) = Val(s.x) * Val(s.y)
  ELSE /\ Val(s.a) + s.c * R^(s.i + s.j - 2) = Val(s.x) * Lo(s.y, s.j - 1) + (IF s.j > Len(s.y) THEN 0 ELSE s.y[s.j] * R^(s.j - 1) * Lo(s.x, s.i - 1))
       /\ s.c < R

\* mul::long::square_long_into: products of different digits, doubled, and the squares.  j: row, i: column
StepSquare(s) ==
  LET n == Len(s.x) IN
  CASE s.pc = "run" ->
         IF s.j > n THEN [s EXCEPT !.pc = "double", !.i = 1, !.c = 0]
         ELSE IF s.i >= s.j THEN [s EXCEPT !.a[2 * s.j - 1] = s.c, !.j = @ + 1, !.i = 1, !.c = 0]
         ELSE LET r == DAddProd(s.a[s.i + s.j - 1], s.x[s.i], s.x[s.j], s.c) IN [s EXCEPT !.a[s.i + s.j - 1] = r[1], !.c = r[2], !.i = @ + 1]
    [] s.pc = "double" ->
         IF s.i > 2 * n THEN [s EXCEPT !.pc = "diag", !.i = 1, !.c = 0, !.ok = s.c = 0]
         ELSE LET r == DMul(s.a[s.i], 2, s.c) IN [s EXCEPT !.a[s.i] = r[1], !.c = r[2], !.i = @ + 1]
    [] s.pc = "diag" ->
         IF s.i > n THEN [Done(s, s.a, 0) EXCEPT !.ok = s.ok /\ s.c = 0]
         ELSE LET r == DAddProd(s.a[2 * s.i - 1], s.x[s.i], s.x[s.i], s.c)
                  t == DAdd(s.a[2 * s.i], r[2], 0)
              IN  [s EXCEPT !.a[2 * s.i - 1] = r[1], !.a[2 * s.i] = t[1], !.c = t[2], !.i = @ + 1]
RECURSIVE Squares(_, _)
Squares(x, n) == IF n = 0 THEN 0 ELSE Squares(x, n - 1) + x[n] * x[n] * R^(2 * n - 2)
InvSquare(s) == LET n == Len(s.x) off == Val(s.x) * Val(s.x) - Squares(s.x, n) IN
  /\ s.ok
  /\ s.pc = "double" => 2 * Val(s.a) = off + Lo(s.a, s.i - 1) - s.c * R^(s.i - 1)
                        \* what is doubled already counts once
  /\ s.pc = "diag" => Val(s.a) + s.c * R^(2 * s.i - 2) = off + Squares(s.x, s.i - 1)
  /\ s.pc = "done" => Val(s.a) = Val(s.x) * Val(s.x)

\* AddAssign<T> on decimal numbers with a value too large for a digit: the two parts one by one, g R + f
StepAddInt(s) ==
  CASE s.pc = "run" -> \* add::add_assign_digit(x, f)
         IF s.f = 0 THEN [s EXCEPT !.pc = "high"]
         ELSE IF s.a = <<>> THEN [s EXCEPT !.a = <<s.f>>, !.pc = "high"]
         ELSE LET r == DAdd(s.a[1], s.f, 0) IN IF r[2] = 0 THEN [s EXCEPT !.a[1] = r[1], !.pc = "high"] ELSE [s EXCEPT !.a[1] = r[1], !.pc = "inc", !.i = 2]
    [] s.pc = "inc" ->
         IF s.i > Len(s.a) THEN [s EXCEPT !.a = Append(@, 1), !.pc = "high"]
         ELSE LET r == DInc(s.a[s.i]) IN [s EXCEPT !.a[s.i] = r[1], !.i = @ + 1, !.pc = IF r[2] = 0 THEN "high" ELSE "inc"]
    [] s.pc = "high" -> \* on the digits above the lowest, which must be there
         LET b == IF s.a = <<>> THEN <<0>> ELSE s.a IN
         IF Len(b) = 1 THEN Done(s, Append(b, s.g), 0)
         ELSE LET r == DAdd(b[2], s.g, 0) IN IF r[2] = 0 THEN Done(s, [b EXCEPT ![2] = r[1]], 0) ELSE [s EXCEPT !.a = [b EXCEPT ![2] = r[1]], !.i = 3, !.pc = "inc2"]
    [] s.pc = "inc2" ->
         IF s.i > Len(s.a) THEN Done(s, Append(s.a, 1), 0)
         ELSE LET r == DInc(s.a[s.i]) IN IF r[2] = 0 THEN Done(s, [s.a EXCEPT ![s.i] = r[1]], 0) ELSE [s EXCEPT !.a[s.i] = r[1], !.i = @ + 1]
InvAddInt(s) == s.pc = "done" /\ Canon(s.x) /\ s.g > 0 => Val(s.a) = Val(s.x) + s.f + R * s.g /\ Canon(s.a)

Step(s) == CASE s.k = "add" -> StepAdd(s) [] s.k = "sub" -> StepSub(s) [] s.k = "subdigit" -> StepSubDigit(s) [] s.k = "rsub" -> StepRsub(s)
             [] s.k \in {"muldigit", "shl"} -> StepUp(s) [] s.k \in {"divdigit", "div3", "shr"} -> StepDown(s) [] s.k = "pair" -> StepPair(s)
             [] s.k = "long" -> StepLong(s) [] s.k = "square" -> StepSquare(s) [] s.k = "addint" -> StepAddInt(s)
Invariant(s) == CASE s.k = "add" -> InvAdd(s) [] s.k = "sub" -> InvSub(s) [] s.k = "subdigit" -> InvSubDigit(s) [] s.k = "rsub" -> InvRsub(s)
             [] s.k \in {"muldigit", "shl"} -> InvUp(s) [] s.k \in {"divdigit", "div3", "shr"} -> InvDown(s) [] s.k = "pair" -> InvPair(s)
             [] s.k = "long" -> InvLong(s) [] s.k = "square" -> InvSquare(s) [] s.k = "addint" -> InvAddInt(s)
=============================================================================
