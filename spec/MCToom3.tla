------------------------------ MODULE MCToom3 -------------------------------
(* All operands of Toom-Cook multiplication and squaring at a small radix  *)
EXTENDS AlgToom3

CONSTANTS R,
          MinDig, MaxDig, MinDig1,  \* lengths of the longer operand, least length of the shorter one
          MaxOps                    \* the shorter operand's length is at most this
SmallRadix == NOfInt(R)
VARIABLES s

\* A start state per length pair; operands are drawn in two steps, to share the load between workers
Vals(n) == {v \in 0..(NToInt(RPow(n)) - 1) : v >= NToInt(RPow(n - 1))}
Init == s \in [pc : {"len"}, nx : MinDig..MaxDig, ny : MinDig1..MaxOps, kind : {"mul", "square"}]
Next == \/ /\ s.pc = "len" /\ (IF s.kind = "square" THEN s.ny = MinDig1 ELSE s.ny <= s.nx)
           /\ \E v \in Vals(s.nx) : s' = [pc |-> "x", nx |-> s.nx, ny |-> s.ny, kind |-> s.kind, x |-> NOfInt(v)]
        \/ /\ s.pc = "x" /\ s.kind = "square" /\ s' = Start("square", s.x, s.nx, s.x, s.nx)
        \/ /\ s.pc = "x" /\ s.kind = "mul"
           /\ \E w \in Vals(s.ny) : s' \in {Start("mul", s.x, s.nx, NOfInt(w), s.ny), Start("mul", NOfInt(w), s.ny, s.x, s.nx)}
        \/ /\ s.pc \notin {"len", "x", "done"} /\ s' = NextOf(s)
Running == s.pc \notin {"len", "x"}
NoFail == Running => NoFailure(s)
Evaluated == Running => EvaluatedOk(s)
Interpolated == Running => InterpolatedOk(s)
Product == Running => ProductOk(s)
=============================================================================
