------------------------------ MODULE AlgBase -------------------------------
(***************************************************************************)
(* What the modules describing the library's algorithms have in common.    *)
(*                                                                         *)
(* The algorithms work in place on arrays of digits.  An array is modelled *)
(* by the BigNat its digits denote *in full*, stale digits included; that  *)
(* it has room for n digits is remembered where it matters.  A prefix      *)
(* (slice) x[..n] is given by n.  The operators below describe the         *)
(* library's kernels on prefixes, with their truncation, carries, failure  *)
(* and ignored failure; AlgKernels.tla describes them digit by digit.      *)
(*                                                                         *)
(* The radix may be small: the algorithms are then checked for all         *)
(* operands.  With the radices of the real types the same modules say      *)
(* which branches a computation takes (AlgCover).                          *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC

CONSTANTS Radix        \* BigNat

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Max3(a, b, c) == Max2(a, Max2(b, c))

RPow(n) == NPow(Radix, n)
NdOf(v) == NLen(Radix, v)                 \* drop_leading_zeros
Lo(v, n) == NMod(v, RPow(n))              \* v[..n]
Hi(v, n) == NDiv(v, RPow(n))              \* v[n..]
Mid(v, i, n) == Lo(Hi(v, i), n)           \* v[i..i+n]
Fits(v, n) == NLt(v, RPow(n))
Dg(v, i) == Mid(v, i, 1)                  \* v[i]

\* The array a with its digits i .. i+n-1 replaced by w < Radix^n
Put(a, i, n, w) == NAdd(NAdd(Lo(a, i), NMul(RPow(i), w)), NMul(RPow(i + n), Hi(a, i + n)))

\* cmp::lt: by length first; equal to the numerical order if there are no leading zeros
LtSlices(a, na, b, nb) == na < nb \/ (na = nb /\ NLt(Lo(a, na), Lo(b, nb)))

\* add::add_assign_big(&mut a[..n], &y[..m]): the new a and the carry.  pre: m <= n
AddAsg(a, n, y, m) == LET t == NAdd(Lo(a, n), Lo(y, m))
                      IN  [a |-> Put(a, 0, n, Lo(t, n)), c |-> ~ Fits(t, n), pre |-> m <= n]
\* add::inc_assign(&mut a[i..room])
IncAsg(a, i, room) == LET t == NAdd(Mid(a, i, room - i), NOne)
                      IN  [a |-> Put(a, i, room - i, Lo(t, room - i)), c |-> ~ Fits(t, room - i), pre |-> i <= room]
\* add::add_big_into(x[..nx], y[..ny], &mut a) where a has room digits; never removes leading zeros
AddInto(a, room, x, nx, y, ny) ==
  LET n == Max2(nx, ny)
      t == NAdd(Lo(x, nx), Lo(y, ny))
      ovf == ~ Fits(t, n)
      n1 == IF ovf THEN n + 1 ELSE n
  IN  [a |-> Put(a, 0, n1, t), n |-> n1, ok |-> n1 <= room]
\* sub::sub_assign_big(&mut a[..n], &y[..m]): on underflow the digits wrap
SubAsg(a, n, y, m) ==
  LET A == Lo(a, n) Y == Lo(y, m)
  IN  IF n < m THEN [a |-> a, n |-> 0, ok |-> FALSE]
      ELSE IF NLeq(Y, A) THEN [a |-> Put(a, 0, n, NSub(A, Y)), n |-> NdOf(NSub(A, Y)), ok |-> TRUE]
      ELSE [a |-> Put(a, 0, n, NSub(NAdd(A, RPow(n)), Y)), n |-> 0, ok |-> FALSE]
\* rsub::rsub_assign_big(&mut a[..n], &y[..m]): y - a.  pre: m = n
RsubAsg(a, n, y, m) ==
  LET A == Lo(a, n) Y == Lo(y, m)
  IN  IF NLeq(A, Y) THEN [a |-> Put(a, 0, n, NSub(Y, A)), n |-> NdOf(NSub(Y, A)), ok |-> m = n]
      ELSE [a |-> Put(a, 0, n, NSub(NAdd(Y, RPow(n)), A)), n |-> 0, ok |-> FALSE]
\* sub::sub_big_into(x[..nx], y[..ny], &mut a)
SubInto(a, room, x, nx, y, ny) ==
  LET X == Lo(x, nx) Y == Lo(y, ny)
  IN  IF room < nx \/ nx < ny \/ NLt(X, Y) THEN [a |-> a, n |-> 0, ok |-> FALSE]
      ELSE [a |-> Put(a, 0, nx, NSub(X, Y)), n |-> NdOf(NSub(X, Y)), ok |-> TRUE]
\* sub::sub_assign_big_abs_sign(&mut a, len, y): |a[..len] - y| into a; the sign
SubAsgAbs(a, room, len, y, ny) ==
  IF LtSlices(a, len, y, ny)
  THEN LET r == RsubAsg(a, ny, y, ny) IN [a |-> r.a, n |-> r.n, sg |-> TRUE, ok |-> r.ok /\ ny <= room]
  ELSE LET r == SubAsg(a, len, y, ny) IN [a |-> r.a, n |-> r.n, sg |-> FALSE, ok |-> r.ok]
\* sub::sub_big_into_abs_sign
SubIntoAbs(a, room, x, nx, y, ny) ==
  IF LtSlices(x, nx, y, ny)
  THEN LET r == SubInto(a, room, y, ny, x, nx) IN [a |-> r.a, n |-> r.n, sg |-> TRUE, ok |-> r.ok]
  ELSE LET r == SubInto(a, room, x, nx, y, ny) IN [a |-> r.a, n |-> r.n, sg |-> FALSE, ok |-> r.ok]
\* mul::mul_big_into_with_work(x[..nx], y[..ny], &mut a): nothing is written for an empty operand;
\* otherwise the first nx + ny digits are, and digits beyond keep what was there.
\* This is the contract on which the recursive algorithms rely, and which they are checked to meet
MulInto(a, room, x, nx, y, ny) ==
  IF nx = 0 \/ ny = 0 THEN [a |-> a, n |-> 0, ok |-> TRUE]
  ELSE LET p == NMul(Lo(x, nx), Lo(y, ny))
       IN  [a |-> Put(a, 0, nx + ny, p), n |-> NdOf(p), ok |-> nx + ny <= room]
\* mul::double_carry_assign(&mut a[..n], false)
DoubleAsg(a, n) == LET t == NAdd(Lo(a, n), Lo(a, n)) IN [a |-> Put(a, 0, n, Lo(t, n)), c |-> ~ Fits(t, n)]
\* div::div3_carry_assign(&mut a[..n], carry)
Div3Asg(a, n, c) == LET t == NAdd(Lo(a, n), NMul(NOfInt(c), RPow(n)))
                        q == NDiv(t, <<3>>)
                    IN  [a |-> Put(a, 0, n, Lo(q, n)), n |-> NdOf(Lo(q, n)), rem |-> NToInt(NMod(t, <<3>>)), ok |-> Fits(q, n)]
\* shr::shr_carry_assign_within_digit(&mut a[..n], 1, carry)
HalveAsg(a, n, c) == LET t == NAdd(Lo(a, n), NMul(NOfInt(c), RPow(n)))
                         q == NDiv(t, NTwo)
                     IN  [a |-> Put(a, 0, n, Lo(q, n)), n |-> NdOf(Lo(q, n)), rem |-> NToInt(NMod(t, NTwo)), ok |-> Fits(q, n)]
\* arr[n] = T::one()
SetOne(a, n, room) == [a |-> Put(a, n, 1, NOne), ok |-> n < room]
Bit(c) == IF c THEN 1 ELSE 0
\* what failed, by name
Fail(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
