------------------------------ MODULE MCDigits ------------------------------
(* The digit operations with shifts, two unknown factors or divisors, on   *)
(* all digits of a small word, and those of AlgDigits on the corners       *)
EXTENDS AlgDigits, TLC, FiniteSets
CONSTANTS Bytes8     \* bits of the word
VARIABLE s           \* a shift; a stands for "not yet chosen"
all == <<v, w, c, b, e, p, m, s>>
Corner == {x \in {0, 1, 2, R \div 2 - 1, R \div 2, R - 2, R - 1} : x >= 0 /\ x < R}

\* leading_zeros
LZ(x) == IF x = 0 THEN Bytes8 ELSE CHOOSE k \in 0..(Bytes8 - 1) : x * 2^k >= W \div 2 /\ x * 2^k < W
MaxShift == IF ~ Dec THEN LZ(v)
            ELSE LET t == LZ(v) - LZ(R - 1) IN IF (v * 2^t) % W <= R - 1 THEN t ELSE t - 1
MaxShiftOk == v > 0 => MaxShift >= 0 /\ v * 2^MaxShift < R /\ v * 2^(MaxShift + 1) >= R

\* MAX_HEX_PLACES hexadecimal places fit into a decimal digit
MaxShl == IF Dec THEN Bytes8 - 4 ELSE Bytes8 - 1
\* the carry in is below 2^s
Shl == IF Dec THEN MulAt(v * 2^s + c) ELSE ResD(((v * 2^s) % W) + c, v \div 2^(Bytes8 - s), ((v * 2^s) % W) % 2^s = 0)
ShlOk == s <= MaxShl /\ c < 2^s => Shl.ok /\ Shl.r + R * Shl.c = v * 2^s + c /\ Shl.r < R /\ Shl.c < R /\ Shl.c < 2^s
Shr == IF Dec THEN ResD((c * R + v) \div 2^s, (c * R + v) % 2^s, c * R + v < W * W)
       ELSE ResD(((c * 2^(Bytes8 - s)) % W) + (v \div 2^s), v % 2^s, (c * 2^(Bytes8 - s)) < W)
ShrOk == c < 2^s /\ 2^s <= R => Shr.ok /\ 2^s * Shr.r + Shr.c = c * R + v /\ Shr.r < R /\ Shr.c < R
\* c < w: the quotient fits
DivOk == c < w => LET t == c * R + v IN t < W * W /\ t \div w < R
\* the product of two digits, as in AlgDigits
ProdOk == v * w <= (R - 1) * (R - 1)

TInit == v = -1 /\ w = 0 /\ c = 0 /\ b = FALSE /\ e = 0 /\ p = 0 /\ m = 0 /\ s = 0
TNext == \/ v = -1 /\ v' \in 0..(R - 1) /\ UNCHANGED <<w, c, b, e, p, m, s>>
         \/ v >= 0 /\ s = 0 /\ s' \in 1..(Bytes8 - 1) /\ w' \in 0..(R - 1) /\ UNCHANGED <<v, c, b, e, p, m>>
         \/ v >= 0 /\ s > 0 /\ c = 0 /\ c' \in {x \in 1..(R - 1) : w = 0 \/ x <= w \/ x \in Corner} /\ UNCHANGED <<v, w, b, e, p, m, s>>
Chosen == v >= 0 /\ s > 0
TOk == /\ Chosen => ShlOk /\ ShrOk /\ DivOk /\ ProdOk
       /\ v >= 0 => MaxShiftOk
=============================================================================
