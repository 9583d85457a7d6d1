------------------------------ MODULE AlgToom3 ------------------------------
(***************************************************************************)
(* Toom-Cook 3-way multiplication and squaring (ubig/mul/toom3.rs), array  *)
(* by array: evaluation of both operands at 0, 1, -1, -2, infinity, five   *)
(* smaller products, interpolation in place, recombination.  Signs are     *)
(* kept apart from magnitudes, intermediate numbers live in prefixes of    *)
(* fixed-size scratch arrays that are reused, and carries out of a prefix  *)
(* are stored, passed on, or (when it is argued that there is none)        *)
(* dropped.  The smaller products are taken from their contract (MulInto). *)
(*                                                                         *)
(* A state is a record s; s.pc says which phase comes next, s.bad collects *)
(* the names of assumptions of the code that failed, s.br the branches     *)
(* taken.  Each phase maps a record to the next one, so that the same      *)
(* description serves the model checker (one phase per step) and AlgCover. *)
(***************************************************************************)
EXTENDS AlgBase

CONSTANT ClearScratch    \* whether rm1 and rm2 are cleared above their product (FALSE: squaring as found)

Start(kind, x, nx, y, ny) ==
  [pc |-> "eval", kind |-> kind, x |-> x, nx |-> nx, y |-> y, ny |-> ny, b |-> (Max2(nx, ny) + 2) \div 3, bad |-> {}, br |-> <<>>]

(***************************************************************************)
(* Evaluation of one operand v[..nd].  p2room: room of the array for p(-2) *)
(***************************************************************************)
EvalPoints(v, nd, b, p2room) ==
  LET mb   == Min2(b, nd)
      p0   == Lo(v, mb)          np0 == NdOf(p0)
      m1   == Mid(v, mb, Min2(b, nd - mb))  nm1 == NdOf(m1)
      hi   == Min2(2 * b, nd)
      pinf == Hi(v, hi)          npinf == nd - hi
      a1   == AddInto(NZero, b + 1, p0, np0, pinf, npinf)          \* p0 + pinf
      p1   == AddInto(NZero, b + 1, a1.a, a1.n, m1, nm1)           \* p(1)
      pm1  == SubAsgAbs(a1.a, b + 1, a1.n, m1, nm1)                \* p(-1)
      t    == IF pm1.sg THEN SubIntoAbs(NZero, p2room, pinf, npinf, pm1.a, pm1.n)
              ELSE LET r == AddInto(NZero, p2room, pm1.a, pm1.n, pinf, npinf) IN [a |-> r.a, n |-> r.n, sg |-> FALSE, ok |-> r.ok]
      db   == DoubleAsg(t.a, t.n)
      t2   == IF db.c THEN SetOne(db.a, t.n, p2room) ELSE [a |-> db.a, ok |-> TRUE]
      n2   == IF db.c THEN t.n + 1 ELSE t.n
      n3   == Max2(n2, np0)
      ad   == AddAsg(t2.a, n3, p0, np0)
      up   == IF ad.c THEN SetOne(ad.a, n3, p2room) ELSE [a |-> ad.a, ok |-> TRUE]
      sb   == SubAsgAbs(t2.a, p2room, n2, p0, np0)
      pm2  == IF t.sg THEN [a |-> up.a, n |-> IF ad.c THEN n3 + 1 ELSE n3, sg |-> TRUE, ok |-> up.ok /\ ad.pre]
              ELSE [a |-> sb.a, n |-> sb.n, sg |-> sb.sg, ok |-> sb.ok]
  IN  [p0 |-> p0, np0 |-> np0, m1 |-> m1, pinf |-> pinf, npinf |-> npinf,
       p1 |-> p1.a, np1 |-> p1.n, pm1 |-> pm1.a, npm1 |-> pm1.n, spm1 |-> pm1.sg,
       pm2 |-> pm2.a, npm2 |-> pm2.n, spm2 |-> pm2.sg,
       bad |-> Fail("p0+pinf", a1.ok) \cup Fail("p1", p1.ok) \cup Fail("pm1", pm1.ok) \cup Fail("pm2/2", t.ok)
               \cup Fail("double", t2.ok) \cup Fail("pm2", pm2.ok),
       br |-> <<Bit(a1.n > Max2(np0, npinf)), Bit(p1.n > Max2(a1.n, nm1)), Bit(pm1.sg), Bit(t.sg), Bit(db.c), Bit(t.sg /\ ad.c), Bit(pm2.sg),
                Bit(pm1.n = 0), Bit(pm2.n = 0)>>]

PhEval(s) ==
  LET p == EvalPoints(s.x, s.nx, s.b, s.b + 2)
      q == IF s.kind = "square" THEN p
           \* the rest of the result array
           ELSE EvalPoints(s.y, s.ny, s.b, s.nx + s.ny - (s.b + 2))
  IN  [s EXCEPT !.pc = "mul", !.bad = p.bad \cup q.bad, !.br = IF s.kind = "square" THEN p.br ELSE p.br \o q.br]
      @@ [p |-> p, q |-> q]

(***************************************************************************)
(* The five products.  Scratch arrays: r1 of 2b+3 digits; rm1 of 2b+3      *)
(* holding p(1), q(1) (p(1) is elsewhere when squaring); rm2 of 2b+4       *)
(* holding p(-1), q(-1)                                                    *)
(***************************************************************************)
PhMul(s) ==
  LET b == s.b p == s.p q == s.q
      sq  == s.kind = "square"
      rm1_0 == IF sq THEN NZero ELSE Put(p.p1, b + 1, b + 1, q.p1)
      rm2_0 == IF sq THEN NZero ELSE Put(p.pm1, b + 1, b + 1, q.pm1)
      r1  == MulInto(NZero, 2 * b + 3, p.p1, p.np1, q.p1, q.np1)
      rm1 == MulInto(rm1_0, 2 * b + 3, p.pm1, p.npm1, q.pm1, q.npm1)
      rm2 == MulInto(rm2_0, 2 * b + 4, p.pm2, p.npm2, q.pm2, q.npm2)
      clr == ClearScratch
      \* smaller squares leave digits of their own scratch above the product: say ones
      dirt(n, room) == IF n > 0 /\ n < room /\ sq THEN NMul(RPow(n), NDiv(NSub(RPow(room - n), NOne), NSub(Radix, NOne))) ELSE NZero
      rm1v == IF clr THEN Lo(rm1.a, rm1.n) ELSE NAdd(Lo(rm1.a, 2 * p.npm1), dirt(2 * p.npm1, 2 * b + 3))
      rm2v == IF clr THEN Lo(rm2.a, rm2.n) ELSE NAdd(Lo(rm2.a, 2 * p.npm2), dirt(2 * p.npm2, 2 * b + 4))
      r0  == MulInto(NZero, 4 * b, p.p0, p.np0, q.p0, q.np0)
      r4  == MulInto(NZero, s.nx + s.ny - Min2(4 * b, s.nx + s.ny), p.pinf, p.npinf, q.pinf, q.npinf)
  IN  [s EXCEPT !.pc = "r3a",
         !.bad = @ \cup Fail("r1", r1.ok) \cup Fail("rm1", rm1.ok) \cup Fail("rm2", rm2.ok) \cup Fail("r0", r0.ok) \cup Fail("r4", r4.ok)]
      @@ [r1 |-> r1.a, n1 |-> r1.n, r2 |-> rm1v, n2 |-> rm1.n, s2 |-> (~ sq) /\ p.spm1 # q.spm1,
          r3 |-> rm2v, n3 |-> rm2.n, s3 |-> (~ sq) /\ p.spm2 # q.spm2,
          r0 |-> r0.a, n0 |-> r0.n, r4 |-> r4.a, n4 |-> r4.n]

\* r3 <- (r(-2) - r(1)) / 3
PhR3a(s) ==
  LET n  == Max2(s.n3, s.n1)
      ad == AddAsg(s.r3, n, s.r1, s.n1)
      sb == SubAsgAbs(s.r3, 2 * s.b + 4, s.n3, s.r1, s.n1)
      t  == IF s.s3 THEN [a |-> ad.a, n |-> n, sg |-> TRUE, c |-> Bit(ad.c), ok |-> ad.pre /\ n <= 2 * s.b + 4]
            ELSE [a |-> sb.a, n |-> sb.n, sg |-> sb.sg, c |-> 0, ok |-> sb.ok]
      d  == Div3Asg(t.a, t.n, t.c)
  IN  [s EXCEPT !.pc = "r1a", !.r3 = d.a, !.n3 = d.n, !.s3 = t.sg, !.br = @ \o <<Bit(s.s3), t.c, Bit(t.sg), Bit(d.n < t.n), Bit(d.n = 0)>>,
                !.bad = @ \cup Fail("r3a", t.ok) \cup Fail("div3", d.ok) \cup Fail("div3 exact", d.rem = 0)]

\* r1 <- (r(1) - r(-1)) / 2
PhR1a(s) ==
  LET n  == Max2(s.n1, s.n2)
      ad == AddAsg(s.r1, n, s.r2, s.n2)
      sb == SubAsg(s.r1, s.n1, s.r2, s.n2)
      t  == IF s.s2 THEN [a |-> ad.a, n |-> n, c |-> Bit(ad.c), ok |-> ad.pre /\ n <= 2 * s.b + 3]
            ELSE [a |-> sb.a, n |-> sb.n, c |-> 0, ok |-> sb.ok]
      h  == HalveAsg(t.a, t.n, t.c)
  IN  [s EXCEPT !.pc = "r2a", !.r1 = h.a, !.n1 = h.n, !.br = @ \o <<Bit(s.s2), t.c, Bit(h.n < t.n)>>,
                !.bad = @ \cup Fail("r1a", t.ok) \cup Fail("r1/2", h.ok) \cup Fail("r1/2 exact", h.rem = 0)]

\* r2 <- r(-1) - r(0)
PhR2a(s) ==
  LET n  == Max2(s.n2, s.n0)
      ad == AddAsg(s.r2, n, s.r0, s.n0)
      up == IF ad.c THEN SetOne(ad.a, n, 2 * s.b + 3) ELSE [a |-> ad.a, ok |-> TRUE]
      sb == SubAsgAbs(s.r2, 2 * s.b + 3, s.n2, s.r0, s.n0)
      t  == IF s.s2 THEN [a |-> up.a, n |-> IF ad.c THEN n + 1 ELSE n, sg |-> TRUE, ok |-> up.ok /\ ad.pre]
            ELSE [a |-> sb.a, n |-> sb.n, sg |-> sb.sg, ok |-> sb.ok]
  IN  [s EXCEPT !.pc = "r3b", !.r2 = t.a, !.n2 = t.n, !.s2 = t.sg, !.br = @ \o <<Bit(s.s2 /\ ad.c), Bit(t.sg), Bit(t.n = 0)>>,
                !.bad = @ \cup Fail("r2a", t.ok)]

\* r3 <- (r2 - r3) / 2
PhR3b(s) ==
  LET n  == Max2(s.n3, s.n2)
      ad == AddAsg(s.r3, n, s.r2, s.n2)
      sb == SubAsgAbs(s.r3, 2 * s.b + 4, s.n3, s.r2, s.n2)
      t  == IF s.s2 # s.s3 THEN [a |-> ad.a, n |-> n, sg |-> s.s2, c |-> Bit(ad.c), ok |-> ad.pre /\ n <= 2 * s.b + 4]
            ELSE [a |-> sb.a, n |-> sb.n, sg |-> ~ (s.s3 # sb.sg) /\ sb.n # 0, c |-> 0, ok |-> sb.ok]
      h  == HalveAsg(t.a, t.n, t.c)
  IN  [s EXCEPT !.pc = "r3c", !.r3 = h.a, !.n3 = h.n, !.s3 = t.sg, !.br = @ \o <<Bit(s.s2 # s.s3), t.c, Bit(t.sg), Bit(h.n < t.n), Bit(h.n = 0)>>,
                !.bad = @ \cup Fail("r3b", t.ok) \cup Fail("r3/2", h.ok) \cup Fail("r3/2 exact", h.rem = 0)]

\* r3 <- r3 + 2 r4, no longer negative
PhR3c(s) ==
  LET room == 2 * s.b + 4
      n   == Max2(s.n3, s.n4)
      a1  == AddAsg(s.r3, n, s.r4, s.n4)
      u1  == IF a1.c THEN SetOne(a1.a, n, room) ELSE [a |-> a1.a, ok |-> TRUE]
      m   == IF a1.c THEN n + 1 ELSE n
      a2  == AddAsg(u1.a, m, s.r4, s.n4)
      u2  == IF a2.c THEN SetOne(a2.a, m, room) ELSE [a |-> a2.a, ok |-> TRUE]
      rs  == RsubAsg(s.r3, s.n4, s.r4, s.n4)
      ra  == AddAsg(rs.a, s.n4, s.r4, s.n4)
      ru  == IF ra.c THEN SetOne(ra.a, s.n4, room) ELSE [a |-> ra.a, ok |-> TRUE]
      ss  == SubAsg(s.r3, s.n4, s.r4, s.n4)          \* may drop a digit of r3 on purpose
      sr  == RsubAsg(ss.a, s.n4, s.r4, s.n4)
      lt  == LtSlices(s.r3, s.n3, s.r4, s.n4)
      t   == IF ~ s.s3 THEN [a |-> u2.a, n |-> IF a2.c THEN m + 1 ELSE m, ok |-> u1.ok /\ u2.ok /\ a1.pre /\ a2.pre]
             ELSE IF lt THEN [a |-> ru.a, n |-> IF ra.c THEN s.n4 + 1 ELSE s.n4, ok |-> rs.ok /\ ru.ok]
             ELSE [a |-> Lo(sr.a, s.n4), n |-> sr.n, ok |-> sr.ok]
      br  == IF ~ s.s3 THEN <<0, Bit(a1.c), Bit(a2.c)>> ELSE IF lt THEN <<1, Bit(ra.c), 0>> ELSE <<2, Bit(s.n3 > s.n4), Bit(sr.n = 0)>>
  IN  [s EXCEPT !.pc = "r2b", !.r3 = t.a, !.n3 = t.n, !.s3 = FALSE, !.br = @ \o br, !.bad = @ \cup Fail("r3c", t.ok)]

\* r2 <- r2 + r1 - r4; r1 <- r1 - r3
PhR2b(s) ==
  LET n  == Max2(s.n2, s.n1)
      rs == RsubAsg(s.r2, s.n1, s.r1, s.n1)
      ad == AddAsg(s.r2, n, s.r1, s.n1)
      up == IF ad.c THEN SetOne(ad.a, n, 2 * s.b + 3) ELSE [a |-> ad.a, ok |-> TRUE]
      t  == IF s.s2 THEN [a |-> rs.a, n |-> rs.n, ok |-> rs.ok] ELSE [a |-> up.a, n |-> IF ad.c THEN n + 1 ELSE n, ok |-> up.ok /\ ad.pre]
      w  == SubAsg(t.a, t.n, s.r4, s.n4)
      z  == SubAsg(s.r1, s.n1, s.r3, s.n3)
  IN  [s EXCEPT !.pc = "sum", !.r2 = w.a, !.n2 = w.n, !.s2 = FALSE, !.r1 = z.a, !.n1 = z.n, !.br = @ \o <<Bit(s.s2), Bit((~ s.s2) /\ ad.c), Bit(w.n = 0), Bit(z.n = 0)>>,
                !.bad = @ \cup Fail("r2b", t.ok) \cup Fail("r2-r4", w.ok) \cup Fail("r1-r3", z.ok)]

\* Recombination in the result array, which holds r0 and r4
PhSum(s) ==
  LET b == s.b len == s.nx + s.ny
      z0 == NAdd(Lo(s.r0, 4 * b), NMul(RPow(4 * b), Lo(s.r4, s.n4)))
      add(z, i, r, n) == LET t == NAdd(Hi(z, i), Lo(r, n))
                         IN  [z |-> Put(z, i, len - i, Lo(t, len - i)), ok |-> n <= len - i /\ Fits(t, len - i)]
      z1 == add(z0, b, s.r1, s.n1)
      z2 == add(z1.z, 2 * b, s.r2, s.n2)
      z3 == add(z2.z, 3 * b, s.r3, s.n3)
  IN  [s EXCEPT !.pc = "done", !.bad = @ \cup Fail("sum1", z1.ok) \cup Fail("sum2", z2.ok) \cup Fail("sum3", z3.ok)]
      @@ [res |-> z3.z, nres |-> NdOf(z3.z)]

NextOf(s) == CASE s.pc = "eval" -> PhEval(s) [] s.pc = "mul" -> PhMul(s) [] s.pc = "r3a" -> PhR3a(s) [] s.pc = "r1a" -> PhR1a(s)
               [] s.pc = "r2a" -> PhR2a(s) [] s.pc = "r3b" -> PhR3b(s) [] s.pc = "r3c" -> PhR3c(s) [] s.pc = "r2b" -> PhR2b(s)
               [] s.pc = "sum" -> PhSum(s)
RunAll(s) == PhSum(PhR2b(PhR3c(PhR3b(PhR2a(PhR1a(PhR3a(PhMul(PhEval(s)))))))))

(***************************************************************************)
(* What holds in between (s.x = x0 + x1 r + x2 r^2 with r = Radix^b)       *)
(***************************************************************************)
NoFailure(s) == s.bad = {}
SgOk(sg, v, pos, neg) == \* (-1)^sg v = pos - neg
  IF sg THEN NAdd(v, pos) = neg ELSE NAdd(v, neg) = pos
Coef(p) == <<p.p0, p.m1, p.pinf>>
Dot(p, q, k) ==  \* the k-th coefficient of the product polynomial
  CASE k = 0 -> NMul(p[1], q[1])
    [] k = 1 -> NAdd(NMul(p[1], q[2]), NMul(p[2], q[1]))
    [] k = 2 -> NAdd(NAdd(NMul(p[1], q[3]), NMul(p[3], q[1])), NMul(p[2], q[2]))
    [] k = 3 -> NAdd(NMul(p[2], q[3]), NMul(p[3], q[2]))
    [] k = 4 -> NMul(p[3], q[3])
EvaluatedOk(s) == s.pc = "mul" => \A p \in {s.p, s.q} :
  /\ Lo(p.p1, p.np1) = NAdd(NAdd(p.p0, p.m1), p.pinf)
  /\ SgOk(p.spm1, Lo(p.pm1, p.npm1), NAdd(p.p0, p.pinf), p.m1)
  /\ SgOk(p.spm2, Lo(p.pm2, p.npm2), NAdd(p.p0, NMul(<<4>>, p.pinf)), NMul(NTwo, p.m1)) \/ s.kind = "square"
  /\ s.kind = "square" => \* the sign of p(-2) is not needed
       \E sg \in BOOLEAN : SgOk(sg, Lo(p.pm2, p.npm2), NAdd(p.p0, NMul(<<4>>, p.pinf)), NMul(NTwo, p.m1))
InterpolatedOk(s) == s.pc = "sum" =>
  LET c(k) == Dot(Coef(s.p), Coef(s.q), k) IN
  /\ Lo(s.r0, s.n0) = c(0) /\ Lo(s.r1, s.n1) = c(1) /\ Lo(s.r2, s.n2) = c(2) /\ Lo(s.r3, s.n3) = c(3) /\ Lo(s.r4, s.n4) = c(4)
ProductOk(s) == s.pc = "done" => s.res = NMul(s.x, s.y) /\ s.nres = NdOf(NMul(s.x, s.y))
=============================================================================
