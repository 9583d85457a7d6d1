----------------------------- MODULE AlgDigits ------------------------------
(***************************************************************************)
(* The digit operations (digit.rs) as they are computed in machine words   *)
(* of W values: what wraps, what must not overflow, and that result and    *)
(* carry are those of arithmetic modulo the radix (the contracts used in   *)
(* AlgKernels).  One state per combination of operands.                    *)
(*                                                                         *)
(* Apalache decides this for all digits of each of the real digit types    *)
(* (AlgDigitsNative), and TLC for all digits of small words, for the       *)
(* operations with two unknown factors or shifts too (MCDigits).           *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  W,        \* number of values of the machine word
  \* @type: Int;
  R,        \* radix
  \* @type: Bool;
  Dec,      \* a decimal digit
  \* @type: Bool;
  Long      \* the variant for which twice a digit may not fit the word

VARIABLES
  \* @type: Int;
  v,      \* the digit
  \* @type: Int;
  w,      \* another
  \* @type: Int;
  c,      \* a carry that is a digit
  \* @type: Bool;
  b,      \* a carry that is a bit
  \* @type: Int;
  e,      \* a carry below 3
  \* @type: Int;
  p,      \* product of two digits
  \* @type: Int;
  m       \* a word

Init == /\ v \in Int /\ 0 <= v /\ v < R
        /\ w \in Int /\ 0 <= w /\ w < R
        /\ c \in Int /\ 0 <= c /\ c < R
        /\ b \in BOOLEAN
        /\ e \in 0..2
        /\ p \in Int /\ 0 <= p /\ p <= (R - 1) * (R - 1)
        /\ m \in Int /\ 0 <= m /\ m < W
Next == UNCHANGED <<v, w, c, b, e, p, m>>

Bit(x) == IF x THEN 1 ELSE 0
\* result, carry, and whether the computation stays within its words
\* @type: (Int, Bool, Bool) => { r: Int, c: Bool, ok: Bool };
Res(r, cr, ok) == [r |-> r, c |-> cr, ok |-> ok]
\* @type: (Int, Int, Bool) => { r: Int, c: Int, ok: Bool };
ResD(r, cr, ok) == [r |-> r, c |-> cr, ok |-> ok]

AddBin == LET n == (v + w) % W IN Res((n + Bit(b)) % W, v + w >= W \/ n + Bit(b) >= W, TRUE)
AddDec == LET s == v + w + Bit(b) IN IF s >= R THEN Res(s - R, TRUE, s < W) ELSE Res(s, FALSE, s < W)
AddLong == LET o == w + Bit(b)
               s == (v + o) % W
           IN  IF v + o >= W \/ s >= R THEN Res((s + W - R) % W, TRUE, o < W) ELSE Res(s, FALSE, o < W)
Add == IF ~ Dec THEN AddBin ELSE IF Long THEN AddLong ELSE AddDec
AddOk == Add.ok /\ Add.r + R * Bit(Add.c) = v + w + Bit(b) /\ 0 <= Add.r /\ Add.r < R

SubBin == LET n == (v - w) % W IN Res((n - Bit(b)) % W, v < w \/ n < Bit(b), TRUE)
SubDec == LET d == w + Bit(b) IN IF v < d THEN Res(v + (R - d), TRUE, d < W /\ d <= R /\ v + (R - d) < W) ELSE Res(v - d, FALSE, d < W)
Sub == IF Dec THEN SubDec ELSE SubBin
SubOk == Sub.ok /\ Sub.r - R * Bit(Sub.c) = v - w - Bit(b) /\ 0 <= Sub.r /\ Sub.r < R

Inc == IF Dec THEN IF v = R - 1 THEN Res(0, TRUE, TRUE) ELSE Res(v + 1, FALSE, v + 1 < W) ELSE Res((v + 1) % W, v + 1 >= W, TRUE)
IncOk == Inc.ok /\ Inc.r + R * Bit(Inc.c) = v + 1 /\ Inc.r < R
Decr == IF Dec THEN IF v = 0 THEN Res(R - 1, TRUE, TRUE) ELSE Res(v - 1, FALSE, TRUE) ELSE Res((v - 1) % W, v < 1, TRUE)
DecOk == Decr.ok /\ Decr.r - R * Bit(Decr.c) = v - 1 /\ 0 <= Decr.r /\ Decr.r < R

\* << 1 drops the top bit
Twice == ((2 * v) % W) + Bit(b)
DoubleBin == Res(Twice, v >= W \div 2, TRUE)
DoubleDec == IF Twice >= R THEN Res(Twice - R, TRUE, 2 * v < W) ELSE Res(Twice, FALSE, 2 * v < W)
DoubleLong == IF v >= W \div 2 \/ Twice >= R THEN Res((Twice + W - R) % W, TRUE, TRUE) ELSE Res(Twice, FALSE, TRUE)
Double == IF ~ Dec THEN DoubleBin ELSE IF Long THEN DoubleLong ELSE DoubleDec
DoubleOk == Double.ok /\ Double.r + R * Bit(Double.c) = 2 * v + Bit(b) /\ Double.r < R

\* in words of W^2 values; the quotient of the long variant is AlgReciprocal's, which asks for less than R^2
MulAt(t) == ResD(t % R, t \div R, t < W * W /\ (Dec /\ Long => t < R * R))
Mul == MulAt(p + c)
MulOk == Mul.ok /\ Mul.r + R * Mul.c = p + c /\ Mul.c < R
AddProd == MulAt(v + p + c)
AddProdOk == AddProd.ok /\ AddProd.r + R * AddProd.c = v + p + c /\ AddProd.c < R
\* the carry of one more may not fit a digit, but does fit its word
SubProd == LET t == p + c
               l == t % R
               u == v < l
           IN  ResD(IF u THEN v + (R - l) ELSE v - l, (t \div R) + Bit(u), t < W * W /\ (t \div R) + Bit(u) < W)
SubProdOk == SubProd.ok /\ SubProd.r - R * SubProd.c = v - p - c /\ 0 <= SubProd.r /\ SubProd.r < R

Div3 == IF Dec /\ Long THEN ResD(((v + e) \div 3) + e * ((R - 1) \div 3), (v + e) % 3, v + e < W)
        ELSE ResD((e * R + v) \div 3, (e * R + v) % 3, (e * R + v) \div 3 < W /\ e * R + v < W * W)
Div3Ok == Div3.ok /\ 3 * Div3.r + Div3.c = e * R + v /\ Div3.c < 3 /\ Div3.r < R

\* DecimalDigit::split and fits_single of a word
SplitOk == Dec => /\ (m < R) = (m \div R = 0)
                  /\ m \div R < R /\ (m % R) < R /\ (m \div R) * R + (m % R) = m

Right == AddOk /\ SubOk /\ IncOk /\ DecOk /\ DoubleOk /\ MulOk /\ AddProdOk /\ SubProdOk /\ Div3Ok /\ SplitOk
=============================================================================
