------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of unbounded size for TLC.                              *)
(*                                                                         *)
(* TLC's own integers are 32 bits wide, while the system specified here is *)
(* about numbers of thousands of digits.  A BigNat is a finite sequence of *)
(* bytes, least significant first, without a zero byte at the end; zero is *)
(* the empty sequence.  Every operator below is *defined* in plain TLA+ by *)
(* elementary schoolbook rules on bytes (carry, borrow, Horner, trial      *)
(* subtraction), so this module has a meaning that does not depend on any  *)
(* bignum library, and in particular shares no algorithm with the code     *)
(* under test (no Karatsuba, no Toom-Cook, no quotient estimation).        *)
(*                                                                         *)
(* For speed TLC may evaluate these operators with the Java overrides in   *)
(* java/babs/BigNatOverrides.java.  MCBigNat.tla compares the two: it      *)
(* evaluates each definition with and without overrides on the same        *)
(* arguments.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

IsBigNat(s) == /\ \A i \in 1..Len(s) : s[i] \in Byte
               /\ Len(s) > 0 => s[Len(s)] # 0

\* Drop the zero bytes at the most significant end
RECURSIVE NNormDef(_)
NNormDef(s) == IF s = <<>> THEN s
               ELSE IF s[Len(s)] = 0 THEN NNormDef(SubSeq(s, 1, Len(s) - 1))
               ELSE s
NNorm(s) == NNormDef(s)

\* The BigNat denoting TLC's integer n >= 0
RECURSIVE NOfInt(_)
NOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NOfInt(n \div 256)

\* The TLC integer denoted by a small BigNat
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + 256 * NToInt(Tail(a))

NZero == <<>>
NOne  == <<1>>
NTwo  == <<2>>
NTen  == <<10>>

ByteAt(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
MaxI(x, y) == IF x > y THEN x ELSE y

\* -1, 0 or 1 as a < b, a = b or a > b
RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE NCmpFrom(a, b, i - 1)
NCmpDef(a, b) == IF Len(a) < Len(b) THEN -1
                 ELSE IF Len(a) > Len(b) THEN 1
                 ELSE NCmpFrom(a, b, Len(a))
NCmp(a, b) == NCmpDef(a, b)
NLt(a, b)  == NCmp(a, b) = -1
NLeq(a, b) == NCmp(a, b) # 1

\* Sum: ripple carry
RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET t == ByteAt(a, i) + ByteAt(b, i) + carry
       IN  <<t % 256>> \o NAddFrom(a, b, i + 1, t \div 256)
NAddDef(a, b) == NAddFrom(a, b, 1, 0)
NAdd(a, b) == NAddDef(a, b)

\* Difference, for b <= a: ripple borrow
RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - ByteAt(b, i) - borrow
       IN  IF t < 0 THEN <<t + 256>> \o NSubFrom(a, b, i + 1, 1)
                    ELSE <<t>> \o NSubFrom(a, b, i + 1, 0)
NSubDef(a, b) == NNorm(NSubFrom(a, b, 1, 0))
NSub(a, b) == NSubDef(a, b)

\* Product of a BigNat and a byte, plus a carry byte
RECURSIVE NMulByteFrom(_, _, _, _)
NMulByteFrom(a, d, i, carry) ==
  IF i > Len(a) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET t == a[i] * d + carry
       IN  <<t % 256>> \o NMulByteFrom(a, d, i + 1, t \div 256)
NMulByte(a, d) == IF d = 0 THEN <<>> ELSE NMulByteFrom(a, d, 1, 0)

\* Product: Horner over the bytes of b
RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET hi == NMulFrom(a, b, i + 1)
           sh == IF hi = <<>> THEN <<>> ELSE <<0>> \o hi
       IN  NAddDef(NMulByte(a, b[i]), sh)
NMulDef(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NMulFrom(a, b, 1)
NMul(a, b) == NMulDef(a, b)

\* Quotient and remainder, for b # 0: one byte of the quotient at a time, each
\* the largest byte q with q*b <= r (found by bisection)
RECURSIVE NQuotByte(_, _, _, _)
NQuotByte(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF NCmpDef(NMulByte(b, mid), r) # 1 THEN NQuotByte(r, b, mid, hi)
                                               ELSE NQuotByte(r, b, lo, mid - 1)
NTakeAway(r, b) == LET q == NQuotByte(r, b, 0, 255)
                   IN  <<q, NSubDef(r, NMulByte(b, q))>>
RECURSIVE NDivModFrom(_, _, _, _, _)
NDivModFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<NNorm(q), r>>
  ELSE LET t == NTakeAway(NNorm(<<a[i]>> \o r), b)
       IN  NDivModFrom(a, b, i - 1, <<t[1]>> \o q, t[2])
NDivModDef(a, b) == NDivModFrom(a, b, Len(a), <<>>, <<>>)
NDivMod(a, b) == NDivModDef(a, b)
NDiv(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]

\* a to the power n, n a TLC integer
RECURSIVE NPowDef(_, _)
NPowDef(a, n) == IF n = 0 THEN NOne ELSE NMulDef(a, NPowDef(a, n - 1))
NPow(a, n) == NPowDef(a, n)

NPow2(n) == NPow(NTwo, n)

(***************************************************************************)
(* Positional notation.  A number object of the code under test exposes a  *)
(* sequence of digits, each occupying K bytes of storage (least            *)
(* significant first); bs is the concatenation of the digits' bytes.       *)
(* The radix R is itself a BigNat.                                         *)
(***************************************************************************)
NrDigitsOf(K, bs) == Len(bs) \div K
DigitOf(K, bs, i) == NNorm(SubSeq(bs, (i - 1) * K + 1, i * K))

\* The number denoted by the digits (Horner)
RECURSIVE NFromDigitsFrom(_, _, _, _)
NFromDigitsFrom(R, K, bs, i) ==
  IF i > NrDigitsOf(K, bs) THEN <<>>
  ELSE NAddDef(DigitOf(K, bs, i), NMulDef(R, NFromDigitsFrom(R, K, bs, i + 1)))
NFromDigitsDef(R, K, bs) == NFromDigitsFrom(R, K, bs, 1)
NFromDigits(R, K, bs) == NFromDigitsDef(R, K, bs)

\* Every digit is below the radix
NDigitsInRangeDef(R, K, bs) ==
  /\ Len(bs) % K = 0
  /\ \A i \in 1..NrDigitsOf(K, bs) : NCmpDef(DigitOf(K, bs, i), R) = -1
NDigitsInRange(R, K, bs) == NDigitsInRangeDef(R, K, bs)

\* Canonical: additionally, the most significant digit is not zero
NCanonicalDef(R, K, bs) ==
  /\ NDigitsInRangeDef(R, K, bs)
  /\ bs # <<>> => DigitOf(K, bs, NrDigitsOf(K, bs)) # <<>>
NCanonical(R, K, bs) == NCanonicalDef(R, K, bs)

\* The one canonical digit sequence of v
PadTo(K, s) == [i \in 1..K |-> ByteAt(s, i)]
RECURSIVE NToDigitsDef(_, _, _)
NToDigitsDef(R, K, v) ==
  IF v = <<>> THEN <<>>
  ELSE LET t == NDivModDef(v, R)
       IN  PadTo(K, t[2]) \o NToDigitsDef(R, K, t[1])
NToDigits(R, K, v) == NToDigitsDef(R, K, v)

\* The number of digits of v in radix R
RECURSIVE NLenDef(_, _)
NLenDef(R, v) == IF v = <<>> THEN 0 ELSE 1 + NLenDef(R, NDivModDef(v, R)[1])
NLen(R, v) == NLenDef(R, v)

(***************************************************************************)
(* Numerals                                                                *)
(***************************************************************************)
LowerDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
UpperDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>

RECURSIVE NNumeralRec(_, _, _)
NNumeralRec(v, base, glyphs) ==
  IF v = <<>> THEN ""
  ELSE LET t == NDivModDef(v, NOfInt(base))
       IN  NNumeralRec(t[1], base, glyphs) \o glyphs[NToInt(t[2]) + 1]
NNumeralDef(v, base, glyphs) == IF v = <<>> THEN "0" ELSE NNumeralRec(v, base, glyphs)
NNumeral(v, base, glyphs) == NNumeralDef(v, base, glyphs)

Dec(v)      == NNumeral(v, 10, LowerDigits)
HexLower(v) == NNumeral(v, 16, LowerDigits)
HexUpper(v) == NNumeral(v, 16, UpperDigits)

CharAt(s, i) == SubSeq(s, i, i)
\* The value of a digit character in the given base, or -1
CharVal(ch, base) ==
  LET lo == {j \in 1..base : LowerDigits[j] = ch}
      up == {j \in 1..base : UpperDigits[j] = ch}
  IN  IF lo # {} THEN (CHOOSE j \in lo : TRUE) - 1
      ELSE IF up # {} THEN (CHOOSE j \in up : TRUE) - 1
      ELSE -1

\* s[from..] consists of digits of the base only
NIsNumeralDef(s, from, base) == \A i \in from..Len(s) : CharVal(CharAt(s, i), base) >= 0
NIsNumeral(s, from, base) == NIsNumeralDef(s, from, base)

\* The number denoted by the numeral s[from..]
RECURSIVE NOfNumeralRec(_, _, _, _)
NOfNumeralRec(s, i, base, acc) ==
  IF i > Len(s) THEN acc
  ELSE NOfNumeralRec(s, i + 1, base,
         NAddDef(NMulDef(acc, NOfInt(base)), NOfInt(CharVal(CharAt(s, i), base))))
NOfNumeralDef(s, from, base) == NOfNumeralRec(s, from, base, <<>>)
NOfNumeral(s, from, base) == NOfNumeralDef(s, from, base)

\* The byte sequence written as pairs of hexadecimal digits
BytesOfHexDef(s) == [i \in 1..(Len(s) \div 2) |->
                      16 * CharVal(CharAt(s, 2*i - 1), 16) + CharVal(CharAt(s, 2*i), 16)]
BytesOfHex(s) == BytesOfHexDef(s)

\* n copies of the (one-character) string ch
RECURSIVE RepeatDef(_, _)
RepeatDef(ch, n) == IF n <= 0 THEN "" ELSE ch \o RepeatDef(ch, n - 1)
Repeat(ch, n) == RepeatDef(ch, n)
=============================================================================
