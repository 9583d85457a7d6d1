---------------------------- MODULE AlgUnbounded ----------------------------
(***************************************************************************)
(* The loops of AlgKernels and the digit estimates of AlgDivide once more, *)
(* for numbers of any length and digits of any radix.  Where AlgKernels    *)
(* keeps an array, this module keeps only the value of the digits done so  *)
(* far, and W = R^k for the k of them; a step takes one more digit.  Each  *)
(* invariant is inductive, which Apalache shows by symbolic execution of   *)
(* a single step from any state that satisfies it:                         *)
(*   apalache-mc check --cinit=CInit --init=AddBefore --next=AddStep       *)
(*                     --inv=AddInv --length=1 AlgUnbounded.tla            *)
(* where ...Before is the start or any state that satisfies the invariant. *)
(* Lemmas without a loop are checked with --length=0.                      *)
(*                                                                         *)
(* A digit need not be one digit of an array: with R the radix to the      *)
(* power of a half, a block or a slice, Down is the loop over the blocks   *)
(* of Burnikel-Ziegler and its 2n by 1n step (two 3n by 2n ones), Estimate *)
(* is the 3n by 2n step, and Rows the multiplication by slices of the      *)
(* longer operand; with R a power of the decimal radix, Down is the split  *)
(* in build_decimal and Horner its recombination.                          *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
  \* @type: Int;
  R      \* the radix
VARIABLES
  \* the weight of the next digit; the parts of the operands and of the result done so far
  \* @type: Int;
  W,
  \* @type: Int;
  X,
  \* @type: Int;
  Y,
  \* @type: Int;
  Z,
  \* carries
  \* @type: Int;
  c,
  \* @type: Int;
  d,
  \* parameters of the loop
  \* @type: Int;
  f,
  \* @type: Int;
  g,
  \* @type: Int;
  j,
  \* @type: Int;
  u,
  \* @type: Int;
  v

CInit == R \in Int /\ R >= 2
Digit(x) == 0 <= x /\ x < R
Part(x) == 0 <= x /\ x < W
Any == /\ W \in Int /\ X \in Int /\ Y \in Int /\ Z \in Int /\ c \in Int /\ d \in Int
       /\ f \in Int /\ g \in Int /\ j \in Int /\ u \in Int /\ v \in Int
Fixed == UNCHANGED <<f, g, j, u, v>>
Zero == W = 1 /\ X = 0 /\ Y = 0 /\ Z = 0
\* t = q * m + r
Split(t, m, q, r) == q >= 0 /\ 0 <= r /\ r < m /\ t = q * m + r

(* add_assign_big, add_into, inc_assign: x + y.  Digits of y beyond its end are zeros *)
AddInv == /\ W >= 1 /\ Part(X) /\ Part(Y) /\ Part(Z) /\ (c = 0 \/ c = 1)
          /\ Z + c * W = X + Y
          \* at the end, a carry is a further digit
AddBefore == Any /\ ((Zero /\ c = 0) \/ AddInv)
AddDigit == \E a \in Int, b \in Int:
    /\ Digit(a) /\ Digit(b)
    /\ LET t == a + b + c IN
       /\ Z' = Z + (IF t >= R THEN t - R ELSE t) * W
       /\ c' = IF t >= R THEN 1 ELSE 0
    /\ X' = X + a * W /\ Y' = Y + b * W /\ W' = W * R /\ d' = d /\ Fixed
\* without a carry and with y at its end, the rest of x, however long, stays as it is
AddRest == \E a \in Int, V \in Int:
    /\ c = 0 /\ V >= 1 /\ 0 <= a /\ a < V
    /\ Z' = Z + a * W /\ X' = X + a * W /\ Y' = Y /\ W' = W * V /\ c' = c /\ d' = d /\ Fixed
AddStep == AddDigit \/ AddRest

(* sub_assign_big, sub_into, rsub_assign_big, dec_assign: x - y.  A borrow at the end tells that y is greater *)
SubInv == /\ W >= 1 /\ Part(X) /\ Part(Y) /\ Part(Z) /\ (c = 0 \/ c = 1)
          /\ Z - c * W = X - Y
          /\ (c = 1) <=> (X < Y)
SubBefore == Any /\ ((Zero /\ c = 0) \/ SubInv)
SubDigit == \E a \in Int, b \in Int:
    /\ Digit(a) /\ Digit(b)
    /\ LET t == a - b - c IN
       /\ Z' = Z + (IF t < 0 THEN t + R ELSE t) * W
       /\ c' = IF t < 0 THEN 1 ELSE 0
    /\ X' = X + a * W /\ Y' = Y + b * W /\ W' = W * R /\ d' = d /\ Fixed
SubRest == \E a \in Int, V \in Int:
    /\ c = 0 /\ V >= 1 /\ 0 <= a /\ a < V
    /\ Z' = Z + a * W /\ X' = X + a * W /\ Y' = Y /\ W' = W * V /\ c' = c /\ d' = d /\ Fixed
SubStep == SubDigit \/ SubRest

(* mul_assign_digit, mul_add_assign_digit, double_carry_assign, shl_carry_assign_within_digit, add_mul_into (a row of   *)
(* the long multiplication): y + x f + j digit by digit; in the row y is what the array holds already, else nothing.    *)
(* f is a digit, or a power of two that is at most the radix; j is the carry to start with                              *)
UpInv == /\ W >= 1 /\ Part(X) /\ Part(Y) /\ Part(Z)
         /\ 0 <= c /\ c < R /\ 0 <= f /\ f <= R /\ 0 <= j /\ j < R
         /\ Y = 0 \/ f < R
         /\ f = R => c < f
         /\ (Y = 0 /\ j < f) => c < f
         /\ Z + c * W = Y + X * f + j
UpBefore == Any /\ ((Zero /\ c = j /\ 0 <= f /\ f <= R /\ 0 <= j /\ j < R) \/ UpInv)
UpStep == \E a \in Int, b \in Int, q \in Int, r \in Int:
    /\ Digit(a) /\ Digit(b) /\ (b = 0 \/ f < R)
    /\ Split(b + a * f + c, R, q, r)
    /\ Z' = Z + r * W /\ c' = q
    /\ X' = X + a * W /\ Y' = Y + b * W /\ W' = W * R /\ d' = d /\ Fixed

(* div_assign_digit, div3_carry_assign, halve, shr_carry_assign_within_digit: from the top digit, x = z f + c *)
DownInv == /\ f >= 1 /\ X >= 0 /\ Z >= 0 /\ 0 <= c /\ c < f /\ X = Z * f + c /\ Digit(d)
DownBefore == Any /\ ((Z = 0 /\ X = c /\ 0 <= c /\ c < f /\ d = 0) \/ DownInv)
DownStep == \E a \in Int, q \in Int, r \in Int:
    /\ Digit(a) /\ Split(c * R + a, f, q, r)
    /\ X' = X * R + a /\ Z' = Z * R + q /\ c' = r /\ d' = q      \* the quotient digit
    /\ W' = W /\ Y' = Y /\ Fixed

(* mul_pair_add_assign_digit: x (f + R g) + j with two carries.  Y is the last digit taken, X the value before it, and  *)
(* W its weight                                                                                                         *)
PairRange == Digit(Y) /\ Digit(f) /\ Digit(g) /\ Digit(c) /\ (d = 0 \/ d = 1)
PairRangeBefore == Any /\ PairRange
PairStep == \E a \in Int, h \in Int, q \in Int:
  LET l == Y * g + c - h * R   r == a * f + l - q * R   t == h + d + q IN
    /\ Digit(a) /\ h >= 0 /\ Digit(l) /\ q >= 0 /\ Digit(r)
    /\ c' = IF t >= R THEN t - R ELSE t
    /\ d' = IF t >= R THEN 1 ELSE 0
    /\ Z' = Z + r * (W * R) /\ X' = X + Y * W /\ Y' = a /\ W' = W * R /\ Fixed
\* what the invariant z = PairDone(...) says before the step, it says after it: c + R d becomes h + d + q
PairDone(w, x, y, cd) == (x + y * w) * f + R * x * g + j - cd * w * R
PairValueBefore == Any
PairValue ==
  LET a == Z  h == u  q == v
      l == Y * g + (c - R * d) - h * R   r == a * f + l - q * R
  IN  PairDone(W, X, Y, c) + r * W * R = PairDone(W * R, X + Y * W, a, h + d + q)

(* square_long_into, last part: the squares of the digits added to twice the products of different ones (two digits of  *)
(* which are taken per step).  X: twice the products, Y: the squares, W: R^(2k)                                         *)
DiagInv == /\ W >= 1 /\ Part(X) /\ Y >= 0 /\ Part(Z) /\ (c = 0 \/ c = 1)
           /\ Z + c * W = X + Y
DiagBefore == Any /\ ((Zero /\ c = 0) \/ DiagInv)
DiagStep == \E a \in Int, o \in Int, p \in Int, q \in Int, r \in Int:
    /\ Digit(a) /\ Digit(o) /\ Digit(p)
    /\ Split(o + a * a + c, R, q, r)
    /\ LET t == p + q IN /\ Z' = Z + r * W + (IF t >= R THEN t - R ELSE t) * W * R
                         /\ c' = IF t >= R THEN 1 ELSE 0
    /\ X' = X + o * W + p * W * R /\ Y' = Y + a * a * W /\ W' = W * R * R /\ d' = d /\ Fixed

(* The rows of the long multiplication: after those for the digits of y done, z is x times them and fits.  g: R^len(x) *)
RowsInv == /\ W >= 1 /\ Part(Y) /\ g >= 1 /\ 0 <= X /\ X < g /\ Z = X * Y /\ Z <= (g - 1) * (W - 1)
RowsBefore == Any /\ ((W = 1 /\ Y = 0 /\ Z = 0 /\ 0 <= X /\ X < g) \/ RowsInv)
RowsStep == \E b \in Int:
    /\ Digit(b) /\ Z' = Z + b * W * X /\ Y' = Y + b * W /\ W' = W * R /\ X' = X /\ c' = c /\ d' = d /\ Fixed

(* Parsing: texts part by part.  f: the value of a one followed by zeros for a part; X: what the parts taken say.       *)
(* From the end when the radix is f, Z digit by digit; else Z = result, multiplied                                      *)
HornerInv == X >= 0 /\ f >= 2 /\ Z = X
HornerBefore == Any /\ ((X = 0 /\ Z = 0 /\ f >= 2) \/ HornerInv)
HornerStep == \E a \in Int: /\ 0 <= a /\ a < f /\ X' = X * f + a /\ Z' = Z * f + a
                            /\ W' = W /\ Y' = Y /\ c' = c /\ d' = d /\ Fixed

(* Powers by squaring: the numbers are powers of the base, X, Y the exponents of result and power, c what is left of *)
(* the exponent f                                                                                                       *)
PowInv == /\ f >= 0 /\ X >= 0 /\ Y >= 1 /\ c >= 0 /\ X + 2 * c * Y = f
PowBefore == Any /\ (\/ f >= 3 /\ Y = 1 /\ X \in {0, 1} /\ c >= 1 /\ f = 2 * c + X
                     \/ PowInv)
PowStep == \E h \in Int, b \in {0, 1}:
    /\ c > 0 /\ h >= 0 /\ c = 2 * h + b
    /\ Y' = 2 * Y /\ X' = IF b = 1 THEN X + 2 * Y ELSE X
    /\ c' = h /\ W' = W /\ Z' = Z /\ d' = d /\ Fixed

(* Comparison from the top: X and Y, what is read of two numbers of equal lengths, are equal until the first different  *)
(* digits; after those, the rest does not matter.  d: -1, 0, 1                                                          *)
OrderInv == /\ X >= 0 /\ Y >= 0 /\ d \in {-1, 0, 1}
            /\ (d = 0) <=> (X = Y)
            /\ (d = -1) <=> (X < Y)
OrderBefore == Any /\ ((X = 0 /\ Y = 0 /\ d = 0) \/ OrderInv)
OrderStep == \E a \in Int, b \in Int:
    /\ Digit(a) /\ Digit(b) /\ X' = X * R + a /\ Y' = Y * R + b
    /\ d' = IF d # 0 THEN d ELSE IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
    /\ W' = W /\ Z' = Z /\ c' = c /\ Fixed

(***************************************************************************)
(* Lemmas                                                                  *)
(***************************************************************************)
Stay == UNCHANGED <<W, X, Y, Z, c, d, f, g, j, u, v>>

(* Numbers without leading zeros: the longer one is greater.  x >= R^(n-1) has n digits, y fewer *)
LongerBefore == Any /\ W >= 1 /\ X >= W /\ Part(Y)
Longer == X > Y

(* scale_denominator: f = 2^k with k the most that the top digit d can be doubled, W = R^(m-1).  Should the whole  *)
(* overflow, one shift is undone.  Either way the top digit g of the result Z = g W + j cannot be doubled           *)
ScaleBefore == /\ Any /\ W >= 1 /\ R % 2 = 0 /\ f >= 1 /\ (f = 1 \/ f % 2 = 0)
               /\ Digit(d) /\ d >= 1 /\ 0 <= Y /\ Y < W /\ X = d * W + Y          \* the denominator
               /\ d * f < R /\ R <= 2 * d * f
               /\ IF X * f < W * R THEN Z = X * f ELSE 2 * Z = X * f
               /\ Z = g * W + j /\ Part(j)
Scaled == Digit(g) /\ 2 * g >= R /\ (X * f >= W * R => f # 1)

(* Quotient digits.  X = g W + j: the denominator and its leading digit g, scaled.  Y = (c R + d) W + Z: the digits of  *)
(* the numerator it is now subtracted from, with a quotient of at most R - 1.  The estimate from the leading digits, or *)
(* R - 1, is the quotient or up to 2 too large.  For Burnikel-Ziegler's 3n by 2n digits, R and W are R^n                *)
EstimateBefore == /\ Any /\ W >= 1 /\ Digit(g) /\ 2 * g >= R /\ Part(j) /\ X = g * W + j
                  /\ Digit(c) /\ Digit(d) /\ Part(Z) /\ Y = (c * R + d) * W + Z /\ Y < X * R
                  /\ f >= 0
                  /\ IF c >= g THEN f = R - 1 ELSE f * g <= c * R + d /\ c * R + d < (f + 1) * g
Estimate == /\ f < R                        \* a digit
            /\ Y < (f + 1) * X              \* not too small
            /\ (f - 2) * X <= Y             \* at most 2 too large
            /\ c <= g                       \* only c = g needs the exception

(* Karatsuba.  x = X W + Y, y = f W + g: the middle coefficient from three products *)
KaratsubaBefore == Any
Karatsuba ==
  LET z0 == Y * g  z2 == X * f  dx == Y - X  dy == g - f  z1 == z0 + z2 - dx * dy
  IN  z2 * W * W + z1 * W + z0 = (X * W + Y) * (f * W + g)

(* Toom-3.  The coefficients W, X, Y, Z, c of the product polynomial (c4 = c) from its values at 0, 1, -1, -2, infinity; *)
(* none being negative, the signs are gone at the end                                                                   *)
ToomBefore == Any /\ W >= 0 /\ X >= 0 /\ Y >= 0 /\ Z >= 0 /\ c >= 0
Toom ==
  LET r0 == W r1 == W + X + Y + Z + c  rm1 == W - X + Y - Z + c  rm2 == W - 2 * X + 4 * Y - 8 * Z + 16 * c  r4 == c
      t3 == rm2 - r1   t1 == r1 - rm1   u2 == rm1 - r0
      u3 == u2 - t3 \div 3   v3 == u3 \div 2 + 2 * r4   v1 == t1 \div 2   v2 == u2 + v1 - r4
  IN  /\ t3 % 3 = 0 /\ t1 >= 0 /\ t1 % 2 = 0 /\ u3 % 2 = 0
      /\ v3 = Z /\ u2 + v1 >= r4 /\ v2 = Y /\ v1 >= v3 /\ v1 - v3 = X

(* Its evaluated numbers have at most b + 1 digits, W being R^b.  Radices are at least 100 *)
ToomFitsBefore == Any /\ R >= 100 /\ W >= 1 /\ Part(X) /\ Part(Y) /\ Part(Z)
ToomFits == /\ X + Y + Z < W * R
            /\ X - Y + Z < W * R /\ Y - X - Z < W * R
            /\ X - 2 * Y + 4 * Z < W * R /\ 2 * Y - X - 4 * Z < W * R
            \* on the way to p(-2): p(-1) + p(infinity), doubled
            /\ 2 * (X - Y + 2 * Z) < W * R /\ 2 * (Y - X - 2 * Z) < W * R
=============================================================================
