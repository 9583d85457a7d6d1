----------------------------- MODULE AlgDivide ------------------------------
(***************************************************************************)
(* Division (ubig/div.rs, div/long.rs, div/bz.rs): by one digit, by two    *)
(* digits, schoolbook long division and Burnikel-Ziegler, with the         *)
(* scaling of the denominator, the quotient digit estimates and their      *)
(* corrections, the reuse of the numerator's array for the remainder, and  *)
(* the cases in which the quotient array is one digit short.               *)
(*                                                                         *)
(* As in AlgBase an array is the BigNat of all its digits.  Loops are      *)
(* machines: Step maps a state record to the next; pc = "done" ends.       *)
(***************************************************************************)
EXTENDS AlgBase

CONSTANTS Cutoff,        \* least length of a denominator for Burnikel-Ziegler (even)
          ClampEstimate, \* TRUE: an estimate that would not fit a digit is replaced by the largest digit (FALSE: as found)
          ScaleCarry     \* TRUE: scale_denominator undoes a shift that overflows the top digit (FALSE: as found)

MaxDigit == NSub(Radix, NOne)

\* Digit::max_shift: how often the digit can be doubled
RECURSIVE MaxShiftFrom(_, _)
MaxShiftFrom(d, k) == IF NLt(NMul(d, NPow2(k + 1)), Radix) THEN MaxShiftFrom(d, k + 1) ELSE k
MaxShift(d) == MaxShiftFrom(d, 0)

\* scale_denominator(&mut den[..n]): the scaled denominator and the shift
Scale(den, n) ==
  LET k == MaxShift(Dg(den, n - 1))
      v == NMul(den, NPow2(k))
  IN  IF Fits(v, n) \/ k = 0 THEN [den |-> v, shift |-> k, undone |-> FALSE]
      ELSE IF ScaleCarry THEN [den |-> NDiv(v, NTwo), shift |-> k - 1, undone |-> TRUE]
      ELSE [den |-> Lo(v, n), shift |-> k, undone |-> FALSE]

\* Digit::div_carry_assign: (c*R + d) / m for c < m; otherwise the quotient does not fit and is cut to a digit
EstDigit(c, d, m) == LET q == NDiv(NAdd(NMul(c, Radix), d), m) IN [q |-> Lo(q, 1), ok |-> NLt(q, Radix)]

(***************************************************************************)
(* By two digits.  num[..n], n >= 2, denominator of two digits             *)
(***************************************************************************)
PairStart(num, n, den) ==
  LET sc == Scale(den, 2)
      v  == NMul(num, NPow2(sc.shift))
  IN  [pc |-> "pair", alg |-> "pair", num0 |-> num, den0 |-> den, n |-> n, i |-> n - 2, den |-> sc.den, shift |-> sc.shift,
       hi |-> Hi(v, n), lo |-> Dg(v, n - 1), nr |-> Put(Lo(v, n), n - 1, 1, NZero),
       bad |-> {}, br |-> <<Bit(sc.shift > 0), Bit(sc.undone)>>]
\* One quotient digit.  The three-digit product may wrap in its top digit
PairStep(s) ==
  LET dl == Dg(s.den, 0) dh == Dg(s.den, 1) d == Dg(s.nr, s.i)
      cl == ~ NLt(s.hi, dh)
      e  == IF cl THEN IF ClampEstimate THEN [q |-> MaxDigit, ok |-> TRUE] ELSE EstDigit(s.hi, s.lo, dh)
            ELSE EstDigit(s.hi, s.lo, dh)
      cur == NAdd(NMul(s.hi, RPow(2)), NAdd(NMul(s.lo, Radix), d))
      p0 == NMul(e.q, s.den)
      c1 == NLt(cur, p0)                       \* first correction
      q1 == IF c1 THEN NSub(e.q, NOne) ELSE e.q
      p1 == IF c1 THEN NSub(p0, s.den) ELSE p0
      c2 == c1 /\ NLt(cur, p1)                 \* second
      q2 == IF c2 THEN NSub(q1, NOne) ELSE q1
      p2 == IF c2 THEN NSub(p1, s.den) ELSE p1
      r  == IF NLeq(p2, cur) THEN NSub(cur, p2) ELSE NZero
  IN  [s EXCEPT !.i = @ - 1, !.hi = Dg(r, 1), !.lo = Dg(r, 0), !.nr = Put(@, s.i, 1, q2),
                !.pc = IF s.i = 0 THEN "pairend" ELSE "pair",
                !.bad = @ \cup Fail("estimate", e.ok) \cup Fail("corrections", NLeq(p2, cur)) \cup Fail("remainder", NLt(r, s.den)),
                !.br = @ \o <<IF cl THEN 3 ELSE 0, Bit(c1) + Bit(c2), Bit(e.q = NZero)>>]
PairEnd(s) ==
  LET r == NDiv(NAdd(NMul(s.hi, Radix), s.lo), NPow2(s.shift))
  IN  [s EXCEPT !.pc = "done", !.bad = @ \cup Fail("shift back", NMod(NAdd(NMul(s.hi, Radix), s.lo), NPow2(s.shift)) = NZero)]
      @@ [quot |-> s.nr, nquot |-> NdOf(s.nr), rem |-> r, nrem |-> NdOf(r)]

(***************************************************************************)
(* Schoolbook.  num[..n] >= den[..m], m >= 3; the quotient array has room  *)
(* for qroom digits                                                        *)
(***************************************************************************)
LongStart(num, n, den, m, quot, qroom) ==
  LET k  == MaxShift(Dg(den, m - 1))
      sc == IF k = 0 THEN [den |-> den, shift |-> 0, undone |-> FALSE] ELSE Scale(den, m)
      v  == NMul(num, NPow2(sc.shift))
  IN  [pc |-> "first", alg |-> "long", num0 |-> num, den0 |-> den, n |-> n, m |-> m, den |-> sc.den, shift |-> sc.shift, i |-> n - m,
       msd |-> Hi(v, n), num |-> Lo(v, n), quot |-> quot, qroom |-> qroom, nquot |-> n - m + 1,
       bad |-> Fail("scaled", MaxShift(Dg(sc.den, m - 1)) = 0), br |-> <<Bit(sc.shift > 0), Bit(sc.undone)>>]

Over(cur, p, den) == LET m == NdOf(den) IN NLt(Hi(cur, m), Hi(p, m))
\* Subtract q*den from cur with at most two corrections of q
Correct(cur, den, q) ==
  LET p0 == NMul(q, den)
      c1 == NLt(cur, p0)
      q1 == IF c1 THEN NSub(q, NOne) ELSE q
      p1 == IF c1 THEN NSub(p0, den) ELSE p0
      c2 == c1 /\ NLt(cur, p1)
      q2 == IF c2 THEN NSub(q1, NOne) ELSE q1
      p2 == IF c2 THEN NSub(p1, den) ELSE p1
  IN  [q |-> q2, r |-> IF NLeq(p2, cur) THEN NSub(cur, p2) ELSE NZero, ok |-> NLeq(p2, cur), nc |-> Bit(c1) + Bit(c2),
       \* whether the digits above those of den alone tell that the product is too large
       tops |-> <<Bit(c1 /\ Over(cur, p0, den)), Bit(c2 /\ Over(cur, p1, den))>>]

\* The first digit is not stored when it is zero, before or after correction
LongFirst(s) ==
  LET e   == EstDigit(s.msd, Dg(s.num, s.n - 1), Dg(s.den, s.m - 1))
      cur == NAdd(NMul(s.msd, RPow(s.m)), Hi(s.num, s.n - s.m))
      c   == Correct(cur, s.den, e.q)
      z   == c.q = NZero
      k   == s.n - s.m
  IN  [s EXCEPT !.pc = IF k = 0 THEN "longend" ELSE "digit", !.i = k - 1,
                !.num = IF e.q = NZero THEN @ ELSE Put(@, k, s.m, Lo(c.r, s.m)),
                !.quot = IF z THEN @ ELSE Put(@, k, 1, c.q), !.nquot = IF z THEN @ - 1 ELSE @,
                !.br = @ \o <<Bit(e.q = NZero), <<c.nc, c.tops>>, Bit(z), Bit(s.msd # NZero)>>,
                !.bad = @ \cup Fail("first estimate", e.ok) \cup Fail("first corrections", c.ok) \cup Fail("first remainder", NLt(c.r, s.den))
                          \cup Fail("first lost", e.q = NZero => s.msd = NZero)
                          \cup Fail("quot room", z \/ k < s.qroom)]
LongDigit(s) ==
  LET top == Dg(s.num, s.i + s.m) msd == Dg(s.den, s.m - 1)
      cl  == ~ NLt(top, msd)
      e   == IF cl /\ ClampEstimate THEN [q |-> MaxDigit, ok |-> TRUE] ELSE EstDigit(top, Dg(s.num, s.i + s.m - 1), msd)
      cur == Mid(s.num, s.i, s.m + 1)
      c   == Correct(cur, s.den, e.q)
  IN  [s EXCEPT !.pc = IF s.i = 0 THEN "longend" ELSE "digit", !.i = @ - 1,
                !.num = Put(@, s.i, s.m + 1, c.r), !.quot = Put(@, s.i, 1, c.q),
                !.br = @ \o <<IF cl THEN 3 ELSE 0, c.nc, Bit(e.q = NZero)>>,
                !.bad = @ \cup Fail("estimate", e.ok) \cup Fail("corrections", c.ok) \cup Fail("remainder", NLt(c.r, s.den)) \cup Fail("quot room", s.i < s.qroom)]
LongEnd(s) ==
  LET r == Lo(s.num, s.m)
  IN  [s EXCEPT !.pc = "done", !.nquot = NdOf(Lo(s.quot, s.nquot)),
                !.bad = @ \cup Fail("rest", Hi(s.num, s.m) = NZero) \cup Fail("shift back", NMod(r, NPow2(s.shift)) = NZero)]
      @@ [rem |-> NDiv(r, NPow2(s.shift)), nrem |-> NdOf(NDiv(r, NPow2(s.shift)))]

RECURSIVE Finish(_)
StepDiv(s) == CASE s.pc = "pair" -> PairStep(s) [] s.pc = "pairend" -> PairEnd(s)
                [] s.pc = "first" -> LongFirst(s) [] s.pc = "digit" -> LongDigit(s) [] s.pc = "longend" -> LongEnd(s)
Finish(s) == IF s.pc = "done" THEN s ELSE Finish(StepDiv(s))

(***************************************************************************)
(* div_big_with_work on num[..n] (no leading zeros), den[..m] (none        *)
(* either), the quotient array and its room.  Result: the arrays after     *)
(* the call, the lengths                                                   *)
(***************************************************************************)
RECURSIVE DivWork(_, _, _, _, _, _)
RECURSIVE Div2n1n(_, _, _, _, _)
RECURSIVE Div3n2n(_, _, _, _, _)
Res(num, nrem, quot, nquot, bad, br) == [num |-> num, nrem |-> nrem, quot |-> quot, nquot |-> nquot, bad |-> bad, br |-> br]

(***************************************************************************)
(* Burnikel-Ziegler                                                        *)
(***************************************************************************)
BitLen(k) == IF k = 0 THEN 0 ELSE CHOOSE b \in 1..31 : 2^(b-1) <= k /\ k < 2^b
BlockSize(m) == LET e == 2^BitLen((m - 1) \div Cutoff) IN ((m + e - 1) \div e) * e

\* num[..2n] by den[..n], num[n..] < den: quotient to quot[..n], remainder to num[..n]
Div2n1n(num, den, n, quot, lvl) ==
  IF n < Cutoff
  THEN LET nn == NdOf(num)
           r  == DivWork(num, nn, den, n, quot, n)
       IN  [r EXCEPT !.br = <<"base", Bit(nn < n)>> \o @]
  ELSE LET h  == n \div 2
           u  == Div3n2n(Hi(num, h), den, h, Hi(quot, h), lvl)
           n1 == Put(num, h, 3 * h, u.num)
           q1 == Put(quot, h, h, Lo(u.quot, h))
           w  == Div3n2n(Lo(n1, 3 * h), den, h, Lo(q1, h), lvl)
           n2 == Put(n1, 0, 3 * h, w.num)
           q2 == Put(q1, 0, h, Lo(w.quot, h))
       IN  Res(n2, NdOf(Lo(n2, n)), q2, NdOf(Lo(q2, n)),
               u.bad \cup w.bad \cup Fail("even", n % 2 = 0) \cup Fail("2n: rest", Hi(n2, n) = NZero) \cup Fail("2n: rem", NLt(Lo(n2, n), den)),
               <<"2n">> \o u.br \o w.br)
\* num[..3n] by den[..2n]: quotient to quot[..n], remainder to num
Div3n2n(num, den, n, quot, lvl) ==
  LET b2 == Lo(den, n) b1 == Hi(den, n)
      a12 == Hi(num, n)
      lt  == NLt(Hi(a12, n), b1)
      s   == Div2n1n(a12, b1, n, quot, lvl + 1)
      top == SubAsg(Hi(a12, n), n, b1, n)
      a2  == AddAsg(Put(a12, n, n, top.a), 2 * n, b1, n)
      t   == IF lt THEN [a |-> s.num, quot |-> s.quot, nquot |-> s.nquot, bad |-> s.bad, br |-> <<0>> \o s.br]
             ELSE [a |-> a2.a, quot |-> NSub(RPow(n), NOne), nquot |-> n,
                   bad |-> Fail("3n: top", top.ok /\ top.n = 0) \cup Fail("3n: carry", ~ a2.c), br |-> <<1>>]
      m0  == Put(num, n, 2 * n, t.a)
      qd  == NMul(Lo(t.quot, t.nquot), b2)
      \* |num| < qden: at most twice too large
      c1  == NLt(m0, qd)
      m1  == IF c1 THEN AddAsg(m0, 3 * n, den, 2 * n) ELSE [a |-> m0, c |-> FALSE]
      q1  == IF c1 THEN NSub(Lo(t.quot, t.nquot), NOne) ELSE Lo(t.quot, t.nquot)
      c2  == c1 /\ NLt(m1.a, qd)
      m2  == IF c2 THEN AddAsg(m1.a, 3 * n, den, 2 * n) ELSE [a |-> m1.a, c |-> FALSE]
      q2  == IF c2 THEN NSub(q1, NOne) ELSE q1
      fin == SubAsg(m2.a, 3 * n, qd, NdOf(qd))
  IN  Res(fin.a, fin.n, Put(t.quot, 0, n, q2), NdOf(q2),
          t.bad \cup Fail("3n: carry out", ~ m1.c /\ ~ m2.c) \cup Fail("3n: corrections", fin.ok) \cup Fail("3n: rem", NLt(fin.a, den)),
          <<"3n">> \o t.br \o <<Bit(c1) + Bit(c2), Bit(qd = NZero)>>)

BZStart(num, n, den, m, quot) ==
  LET bs == BlockSize(m)
      sh == bs - m
      sc == Scale(NMul(den, RPow(sh)), bs)
      t  == 2 + (n - m) \div bs
  IN  [pc |-> "block", alg |-> "bz", num0 |-> num, den0 |-> den, n |-> n, m |-> m, bs |-> bs, den |-> sc.den, shift |-> sc.shift, t |-> t, i |-> t - 2,
       num |-> NMul(NMul(num, RPow(sh)), NPow2(sc.shift)), q |-> NZero, quot |-> quot,
       bad |-> Fail("bz room", sh + n + 1 <= t * bs) \cup Fail("bz shift", NLeq(NMul(num, NPow2(sc.shift)), NSub(RPow(n + 1), NOne))),
       br |-> <<"bz", Bit(sh > 0), Bit(sc.shift > 0), Bit(sc.undone), Min2(t, 4)>>]
BZBlock(s) ==
  LET lo == s.i * s.bs
      r  == Div2n1n(Mid(s.num, lo, 2 * s.bs), s.den, s.bs, NZero, 0)
  IN  [s EXCEPT !.num = Put(@, lo, 2 * s.bs, r.num), !.q = Put(@, lo, s.bs, r.quot), !.i = @ - 1, !.pc = IF s.i = 0 THEN "bzend" ELSE "block",
                !.bad = @ \cup r.bad \cup Fail("block", NLt(Mid(s.num, lo + s.bs, s.bs), s.den)), !.br = @ \o r.br]
BZEnd(s) ==
  LET sh == s.bs - s.m
      r  == NDiv(Mid(s.num, sh, s.m), NPow2(s.shift))
      nq == NdOf(s.q)
  IN  [s EXCEPT !.pc = "done", !.bad = @ \cup Fail("bz low", Lo(s.num, sh) = NZero) \cup Fail("bz high", Hi(s.num, s.bs) = NZero)
                                       \cup Fail("bz back", NMod(Mid(s.num, sh, s.m), NPow2(s.shift)) = NZero) \cup Fail("bz quot", nq <= s.n - s.m + 1)]
      @@ [rem |-> r, nrem |-> NdOf(r), nquot |-> nq]
RECURSIVE FinishBZ(_)
StepBZ(s) == IF s.pc = "block" THEN BZBlock(s) ELSE BZEnd(s)
FinishBZ(s) == IF s.pc = "done" THEN s ELSE FinishBZ(StepBZ(s))

DivWork(num, n, den, m, quot, qroom) ==
  IF LtSlices(num, n, den, m) THEN Res(num, n, quot, 0, {}, <<"less">>)
  ELSE IF qroom < n - m + 1 /\ (qroom < n - m \/ ~ NLt(Hi(num, n - m), den)) THEN Res(num, n, quot, 0, {"NoSpace"}, <<>>)
  ELSE IF m = 1
  THEN LET q == NDiv(num, den) r == NMod(num, den)
       IN  Res(r, NdOf(r), Put(quot, 0, NdOf(q), q), NdOf(q), Fail("room", NdOf(q) <= qroom), <<"digit", Bit(r = NZero)>>)
  ELSE IF m = 2
  THEN LET s == Finish(PairStart(num, n, den))
       IN  Res(s.rem, s.nrem, Put(quot, 0, s.nquot, Lo(s.quot, s.nquot)), s.nquot, s.bad \cup Fail("room", s.nquot <= qroom), <<"pair">> \o s.br)
  ELSE IF m < Cutoff
  THEN LET s == Finish(LongStart(num, n, den, m, quot, qroom))
       \* what stays in the array is the shifted remainder, shifted back
       IN  Res(s.rem, s.nrem, s.quot, s.nquot, s.bad, <<"long">> \o s.br)
  ELSE LET s == FinishBZ(BZStart(num, n, den, m, quot))
       IN  Res(s.rem, s.nrem, Put(quot, 0, s.nquot, s.q), s.nquot, s.bad, s.br)

NoFailure(s) == s.bad = {}
\* Loop invariants: what is divided so far, and what is left
PairInv(s) == s.pc \in {"pair", "pairend"} /\ s.bad = {} =>
  NMul(s.num0, NPow2(s.shift)) =
    NAdd(NMul(NMul(Hi(s.nr, s.i + 1), RPow(s.i + 1)), s.den),
         NAdd(NMul(NAdd(NMul(s.hi, Radix), s.lo), RPow(s.i + 1)), Lo(s.nr, s.i + 1)))
LongInv(s) == s.pc \in {"digit", "longend"} /\ s.bad = {} =>
  /\ NMul(s.num0, NPow2(s.shift)) = NAdd(NMul(NMul(Hi(Lo(s.quot, s.n - s.m + 1), s.i + 1), RPow(s.i + 1)), s.den), s.num)
  /\ NLt(Hi(s.num, s.i + 1), s.den)
BZInv(s) == s.pc \in {"block", "bzend"} /\ s.alg = "bz" /\ s.bad = {} =>
  /\ NMul(NMul(s.num0, RPow(s.bs - s.m)), NPow2(s.shift)) = NAdd(NMul(s.q, s.den), s.num)
  /\ s.i < s.t - 2 => NLt(Hi(s.num, (s.i + 1) * s.bs), s.den)
QuotientOk(s) == s.pc = "done" =>
  /\ Lo(IF s.alg = "bz" THEN s.q ELSE s.quot, s.nquot) = NDiv(s.num0, s.den0) /\ s.nquot = NdOf(NDiv(s.num0, s.den0))
  /\ s.rem = NMod(s.num0, s.den0)
=============================================================================
