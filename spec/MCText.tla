------------------------------- MODULE MCText -------------------------------
(* All texts of up to N characters, all numbers of up to M digits          *)
EXTENDS AlgText
CONSTANTS Kinds, N, M
VARIABLE s
Init == s \in [kind : Kinds, len : 0..N]
Next == IF "kind" \in DOMAIN s
        THEN IF s.kind = "show" THEN s.len <= M /\ \E a \in {a \in [1..s.len -> 0..(R - 1)] : Canon(a)} : s' = Start("show", <<>>, a)
             ELSE \E t \in [1..s.len -> 0..(Base - 1)] : s' = Start(s.kind, t, <<>>)
        ELSE s.pc # "done" /\ s' = Step(s)
Inv == "pc" \in DOMAIN s => Invariant(s)
KHorner == {"horner"}
KDirect == {"direct", "show"}
=============================================================================
