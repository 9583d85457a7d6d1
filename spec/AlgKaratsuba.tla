---------------------------- MODULE AlgKaratsuba ----------------------------
(***************************************************************************)
(* Karatsuba multiplication and squaring (ubig/mul/karatsuba.rs).  The     *)
(* halves' differences are kept in the result array, their product in the  *)
(* scratch array z1 of 2*split digits; then the result array receives the  *)
(* products of the low and of the high halves, and z1 is turned, in place, *)
(* into the middle coefficient, whose carries go directly to the result.   *)
(* Phases as in AlgToom3.                                                  *)
(***************************************************************************)
EXTENDS AlgBase

Start(kind, x, nx, y, ny) ==
  [pc |-> "diff", kind |-> kind, x |-> x, nx |-> nx, y |-> y, ny |-> ny, split |-> (Max2(nx, ny) + 1) \div 2, bad |-> {}, br |-> <<>>]

Halves(v, nd, split) ==
  LET m == Min2(split, nd) lo == Lo(v, m)
  IN  [lo |-> lo, nlo |-> NdOf(lo), hi |-> Hi(v, m), nhi |-> nd - m]

PhDiff(s) ==
  LET p == Halves(s.x, s.nx, s.split)
      q == Halves(s.y, s.ny, s.split)
      sq == s.kind = "square"
      \* squaring has the whole result array for its only difference
      d0 == SubIntoAbs(NZero, IF sq THEN s.nx + s.ny ELSE s.split, p.lo, p.nlo, p.hi, p.nhi)
      d1 == IF sq THEN d0 ELSE SubIntoAbs(NZero, s.nx + s.ny - s.split, q.lo, q.nlo, q.hi, q.nhi)
  IN  [s EXCEPT !.pc = "mul", !.br = <<Bit(d0.sg), Bit(d1.sg), Bit(d0.n = 0), Bit(d1.n = 0), Bit(p.nhi = 0), Bit(q.nhi = 0), Bit(p.nlo = 0), Bit(q.nlo = 0)>>,
                !.bad = Fail("diff0", d0.ok) \cup Fail("diff1", d1.ok)]
      @@ [p |-> p, q |-> q, d0 |-> d0, d1 |-> d1]

PhMul(s) ==
  LET p == s.p q == s.q len == s.nx + s.ny
      z1 == MulInto(NZero, 2 * s.split, s.d0.a, s.d0.n, s.d1.a, s.d1.n)
      z0 == MulInto(NZero, 2 * s.split, p.lo, p.nlo, q.lo, q.nlo)
      z2 == MulInto(NZero, len - 2 * s.split, p.hi, p.nhi, q.hi, q.nhi)
  IN  [s EXCEPT !.pc = "mid", !.bad = @ \cup Fail("z1", z1.ok) \cup Fail("z0", z0.ok) \cup Fail("z2", z2.ok)]
      @@ [z1 |-> z1.a, n1 |-> z1.n, z0 |-> z0.a, n0 |-> z0.n, z2 |-> z2.a, n2 |-> z2.n,
          res |-> NAdd(z0.a, NMul(RPow(2 * s.split), z2.a))]

\* z1 <- z0 + z2 -/+ |diff0 diff1|
PhMid(s) ==
  LET len == s.nx + s.ny
      opp == s.kind # "square" /\ s.d0.sg # s.d1.sg
      \* opposite signs: three-term sum, of which two carries may come
      m  == Max3(s.n1, s.n0, s.n2)
      c0 == AddAsg(s.z1, m, s.z0, s.n0)
      c2 == AddAsg(c0.a, m, s.z2, s.n2)
      i0 == IF c0.c THEN IncAsg(s.res, s.split + m, len) ELSE [a |-> s.res, c |-> FALSE, pre |-> TRUE]
      i2 == IF c2.c THEN IncAsg(i0.a, s.split + m, len) ELSE [a |-> i0.a, c |-> FALSE, pre |-> TRUE]
      \* equal signs, product below z0
      lt == LtSlices(s.z1, s.n1, s.z0, s.n0)
      rl == RsubAsg(s.z1, s.n0, s.z0, s.n0)
      ml == Max2(rl.n, s.n2)
      al == AddAsg(rl.a, ml, s.z2, s.n2)
      il == IF al.c THEN IncAsg(s.res, s.split + ml, len) ELSE [a |-> s.res, c |-> FALSE, pre |-> TRUE]
      \* equal signs, product not below z0: then not above z0 + z2 either
      sg == SubAsg(s.z1, s.n1, s.z0, s.n0)
      rg == RsubAsg(sg.a, s.n2, s.z2, s.n2)
      t == IF opp THEN [z |-> c2.a, n |-> m, res |-> i2.a, ok |-> c0.pre /\ c2.pre /\ i0.pre /\ i2.pre /\ ~ i0.c /\ ~ i2.c]
           ELSE IF lt THEN [z |-> al.a, n |-> ml, res |-> il.a, ok |-> rl.ok /\ al.pre /\ il.pre /\ ~ il.c]
           ELSE [z |-> rg.a, n |-> rg.n, res |-> s.res, ok |-> sg.ok /\ rg.ok /\ ~ LtSlices(s.z2, s.n2, sg.a, sg.n)]
      br == IF opp THEN <<0, Bit(c0.c), Bit(c2.c), Bit(m = s.n1)>> ELSE IF lt THEN <<1, Bit(al.c), Bit(rl.n < s.n2), Bit(s.n1 = 0)>>
            ELSE <<2, Bit(rg.n = 0), Bit(rg.n < s.n2), Bit(sg.n = 0)>>
      fin == NAdd(Hi(t.res, s.split), Lo(t.z, t.n))
  IN  [s EXCEPT !.pc = "done", !.bad = @ \cup Fail("mid", t.ok) \cup Fail("room", t.n <= len - s.split /\ t.n <= 2 * s.split) \cup Fail("carry", Fits(fin, len - s.split)),
                !.br = @ \o br, !.res = Put(t.res, s.split, len - s.split, Lo(fin, len - s.split))]

NextOf(s) == CASE s.pc = "diff" -> PhDiff(s) [] s.pc = "mul" -> PhMul(s) [] s.pc = "mid" -> PhMid(s)
RunAll(s) == PhMid(PhMul(PhDiff(s)))

NoFailure(s) == s.bad = {}
ProductOk(s) == s.pc = "done" => s.res = NMul(s.x, s.y)
=============================================================================
