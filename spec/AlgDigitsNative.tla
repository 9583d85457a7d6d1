-------------------------- MODULE AlgDigitsNative ---------------------------
(***************************************************************************)
(* The digit operations for all digits of the eight real digit types       *)
(*   apalache-mc check --cinit=D64 --length=0 --inv=Right ...              *)
(***************************************************************************)
EXTENDS AlgDigits
D8  == W = 256 /\ R = 100 /\ Dec = TRUE /\ Long = FALSE
D16 == W = 65536 /\ R = 10000 /\ Dec = TRUE /\ Long = FALSE
D32 == W = 4294967296 /\ R = 1000000000 /\ Dec = TRUE /\ Long = FALSE
D64 == W = 18446744073709551616 /\ R = 10000000000000000000 /\ Dec = TRUE /\ Long = TRUE
B8  == W = 256 /\ R = 256 /\ Dec = FALSE /\ Long = FALSE
B16 == W = 65536 /\ R = 65536 /\ Dec = FALSE /\ Long = FALSE
B32 == W = 4294967296 /\ R = 4294967296 /\ Dec = FALSE /\ Long = FALSE
B64 == W = 18446744073709551616 /\ R = 18446744073709551616 /\ Dec = FALSE /\ Long = TRUE
=============================================================================
