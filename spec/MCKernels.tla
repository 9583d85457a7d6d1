----------------------------- MODULE MCKernels ------------------------------
(* Every digit loop on all arrays of up to N digits                        *)
EXTENDS AlgKernels
CONSTANTS N, Kinds
VARIABLES s
Arrays(n) == [1..n -> 0..(R - 1)]
Upto(n) == UNION {Arrays(m) : m \in 0..n}
Digits == 0..(R - 1)
Zeros(n) == [i \in 1..n |-> 0]
ShiftFits(k) == 2^k < R \/ (2^k = R /\ FALSE)
Init == s \in {[k |-> k, pc |-> "begin", n |-> n, m |-> m] : k \in Kinds, n \in 0..N, m \in 0..N}
Begin(k, n, m) ==
  CASE k \in {"add", "sub"} -> {Start(k, x, y, 0, 0) : x \in Arrays(n), y \in IF m <= n THEN Arrays(m) ELSE {}}
    [] k = "rsub" -> {Start(k, x, y, 0, 0) : x \in Arrays(n), y \in IF m = n THEN Arrays(m) ELSE {}}
    [] m # 0 /\ k \in {"subdigit", "muldigit", "shl", "divdigit", "div3", "shr", "pair", "square", "addint"} -> {}
    [] k = "subdigit" -> {Start(k, x, <<>>, f, 0) : x \in Arrays(n), f \in Digits}
    [] k = "muldigit" -> {[Start(k, x, <<>>, f, g) EXCEPT !.c = g] : x \in Arrays(n), f \in Digits, g \in Digits}
    [] k = "shl" -> {[Start(k, x, <<>>, f, g) EXCEPT !.c = g] : x \in Arrays(n), f \in {f \in 1..6 : 2^f < R}, g \in 0..0}
    [] k = "divdigit" -> {Start(k, x, <<>>, f, 0) : x \in Arrays(n), f \in Digits \ {0}}
    [] k = "div3" -> {[Start(k, x, <<>>, 3, g) EXCEPT !.c = g] : x \in Arrays(n), g \in IF R > 3 THEN 0..2 ELSE {}}
    [] k = "shr" -> {Start(k, x, <<>>, f, 0) : x \in Arrays(n), f \in {f \in 1..6 : 2^f <= R}}
    [] k = "pair" -> IF n = 0 THEN {} ELSE {[Start(k, x, <<>>, f, g) EXCEPT !.c = o, !.j = o] : x \in Arrays(n), f \in Digits, g \in Digits, o \in Digits}
    [] k = "long" -> {[Start(k, x, y, 0, 0) EXCEPT !.a = Zeros(n + m)] : x \in Arrays(n), y \in Arrays(m)}
    [] k = "square" -> {[Start(k, x, <<>>, 0, 0) EXCEPT !.a = Zeros(2 * n), !.j = 2] : x \in Arrays(n)}
    [] k = "addint" -> {Start(k, x, <<>>, f, g) : x \in Arrays(n), f \in Digits, g \in Digits \ {0}}
Next == IF s.pc = "begin" THEN s' \in Begin(s.k, s.n, s.m) ELSE s.pc # "done" /\ s' = Step(s)
Inv == s.pc # "begin" => Invariant(s)
\* arrays stay arrays of digits
Typed == s.pc # "begin" => \A i \in 1..Len(s.a) : s.a[i] \in Digits
Everything == {"add", "sub", "subdigit", "rsub", "muldigit", "shl", "divdigit", "div3", "shr", "pair", "long", "square", "addint"}
NoLong == Everything \ {"long"}
=============================================================================
