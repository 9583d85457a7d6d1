---------------------------- MODULE MCKaratsuba -----------------------------
(* All operands of Karatsuba multiplication and squaring at a small radix  *)
EXTENDS AlgKaratsuba
CONSTANTS R, MaxDig
VARIABLES s
SmallRadix == NOfInt(R)
Vals(n) == {v \in 0..(NToInt(RPow(n)) - 1) : v >= NToInt(RPow(n - 1))}
Init == s \in [pc : {"len"}, nx : 2..MaxDig, ny : 2..MaxDig, kind : {"mul", "square"}]
Next == \/ /\ s.pc = "len" /\ (IF s.kind = "square" THEN s.ny = 2 ELSE s.ny <= s.nx)
           /\ \E v \in Vals(s.nx) : s' = [pc |-> "x", nx |-> s.nx, ny |-> s.ny, kind |-> s.kind, x |-> NOfInt(v)]
        \/ /\ s.pc = "x" /\ s.kind = "square" /\ s' = Start("square", s.x, s.nx, s.x, s.nx)
        \/ /\ s.pc = "x" /\ s.kind = "mul"
           /\ \E w \in Vals(s.ny) : s' \in {Start("mul", s.x, s.nx, NOfInt(w), s.ny), Start("mul", NOfInt(w), s.ny, s.x, s.nx)}
        \/ /\ s.pc \notin {"len", "x", "done"} /\ s' = NextOf(s)
Running == s.pc \notin {"len", "x"}
NoFail == Running => NoFailure(s)
Product == Running => ProductOk(s)
=============================================================================
