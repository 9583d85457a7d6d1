--------------------------- MODULE AlgReciprocal ----------------------------
(***************************************************************************)
(* DecimalDigit<u64>::div_rem_base: division of a 128-bit number by 10^19  *)
(* with a multiplication by ceil(2^192 / 10^19) in 64-bit parts.  For      *)
(* every n < 10^38 no intermediate result exceeds 128 bits, and the        *)
(* quotient and the remainder are right.  One state per n, all at once:    *)
(*   apalache-mc check --length=0 --inv=Right AlgReciprocal.tla            *)
(***************************************************************************)
EXTENDS Integers

W == 18446744073709551616                                  \* 2^64
WW == 340282366920938463463374607431768211456              \* 2^128
R == 10000000000000000000
ScaleLow == 6225051964306646475
ScaleHigh == 15581492618384294730

VARIABLES
  \* @type: Int;
  n

Init == n \in Int /\ n >= 0 /\ n < R * R
Next == UNCHANGED n

Low == n % W
High == n \div W
P1 == ScaleLow * Low
C1 == P1 \div W
P2 == ScaleLow * High + ScaleHigh * Low + C1
C2 == P2 \div W
P3 == ScaleHigh * High + C2 + Low
Quot == P3 \div W + High
Rem == n - Quot * R

NoOverflow == P1 < WW /\ ScaleHigh * Low < WW /\ P2 < WW /\ P3 < WW /\ Quot * R < WW
Correct == 0 <= Rem /\ Rem < R /\ Quot < W
Right == NoOverflow /\ Correct
=============================================================================
