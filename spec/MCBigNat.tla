----------------------------- MODULE MCBigNat -------------------------------
(***************************************************************************)
(* Validates BigNat.tla in two ways, for all arguments in bounded sets:    *)
(*  - Anchor: the TLA+ definitions agree with TLC's built-in integers on   *)
(*    numbers that fit in them;                                            *)
(*  - Agree: the Java overrides agree with the TLA+ definitions, on        *)
(*    longer numbers over extreme bytes.                                   *)
(* A behaviour walks over all pairs, so that TLC's workers share the load. *)
(***************************************************************************)
EXTENDS BigNat, TLC, FiniteSets

CONSTANTS MaxSmall,     \* Anchor: all pairs below this
          Bytes,        \* Agree: alphabet
          MaxLen        \* Agree: all sequences up to this length

Seqs(n) == UNION {[1..k -> Bytes] : k \in 0..n}
Nats == {s \in Seqs(MaxLen) : s = <<>> \/ s[Len(s)] # 0}
Radices == {<<<<0,1>>, 1>>, <<<<100>>, 1>>, <<<<0,0,1>>, 2>>, <<<<16,39>>, 2>>,
            <<<<0,202,154,59>>, 4>>}
Strs == {"", "0", "00", "7", "123", "0009", "abc", "AbC9", "12+3", "+1", "f", "9a", "1g", " 1", "1 ", "deadBEEF00"}

NHash(a) == (ByteAt(a, 1) * 5 + ByteAt(a, 2) * 3 + ByteAt(a, 3)) % 16

VARIABLES mode, x
Init == mode = "start" /\ x = 0
\* Two steps, because TLC checks the successors of one state with one worker
Next == \/ mode = "start" /\ mode' \in {"p-anchor", "p-agree", "p-str"} /\ x' \in 0..15
        \/ mode = "p-anchor" /\ mode' = "anchor" /\ x' \in {y \in 0..MaxSmall : y % 16 = x}
        \/ mode = "p-agree" /\ mode' = "agree" /\ x' \in {a \in Nats : NHash(a) = x}
        \/ mode = "p-str" /\ mode' = "str" /\ x = 0 /\ x' \in Strs

Anchor == mode = "anchor" =>
  LET a == NOfInt(x) IN
  /\ IsBigNat(a) /\ NToInt(a) = x
  /\ NOfNumeralDef(NNumeralDef(a, 10, LowerDigits), 1, 10) = a
  /\ NNumeralDef(a, 10, LowerDigits) = ToString(x)
  /\ NOfNumeralDef(NNumeralDef(a, 16, UpperDigits), 1, 16) = a
  /\ \A y \in 0..MaxSmall :
       LET b == NOfInt(y) IN
       /\ NToInt(NAddDef(a, b)) = x + y
       /\ NCmpDef(a, b) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
       /\ y <= x => NToInt(NSubDef(a, b)) = x - y
       /\ NToInt(NMulDef(a, b)) = x * y
       /\ y > 0 => /\ NToInt(NDivModDef(a, b)[1]) = x \div y
                   /\ NToInt(NDivModDef(a, b)[2]) = x % y

AgreePair(a, b) ==
  /\ NAdd(a, b) = NAddDef(a, b)
  /\ NCmp(a, b) = NCmpDef(a, b)
  /\ NCmpDef(b, a) # 1 => NSub(a, b) = NSubDef(a, b)
  /\ NMul(a, b) = NMulDef(a, b)
  /\ b # <<>> => /\ NDivMod(a, b) = NDivModDef(a, b)
                 /\ LET t == NDivModDef(a, b)
                    IN  NAddDef(NMulDef(t[1], b), t[2]) = a /\ NCmpDef(t[2], b) = -1

AgreeOne(a) ==
  /\ NNorm(a \o <<0, 0>>) = a /\ NNormDef(a \o <<0, 0>>) = a
  /\ \A n \in 0..3 : NPow(a, n) = NPowDef(a, n)
  /\ \A base \in {10, 16} : \A g \in {LowerDigits, UpperDigits} :
       NNumeral(a, base, g) = NNumeralDef(a, base, g)
  /\ \A R \in {<<2>>, <<3>>, <<10>>} : NLen(R, a) = NLenDef(R, a)
  /\ \A rk \in Radices :
       LET R == rk[1] K == rk[2] d == NToDigitsDef(R, K, a) IN
       /\ NToDigits(R, K, a) = d
       /\ NCanonical(R, K, d) /\ NCanonicalDef(R, K, d)
       /\ NFromDigits(R, K, d) = a /\ NFromDigitsDef(R, K, d) = a
       /\ NLen(R, a) = NLenDef(R, a) /\ NLenDef(R, a) = Len(d) \div K
       /\ NCanonical(R, K, a) = NCanonicalDef(R, K, a)
       /\ NDigitsInRange(R, K, a) = NDigitsInRangeDef(R, K, a)
       /\ NCanonical(R, K, d \o PadTo(K, <<>>)) = FALSE
       /\ Len(a) % K = 0 => NFromDigits(R, K, a) = NFromDigitsDef(R, K, a)

\* Partners of a long number are the short ones
Partners(a) == IF Len(a) < MaxLen THEN {b \in Nats : Len(b) < MaxLen} ELSE {b \in Nats : Len(b) < 2 \/ b[1] = b[Len(b)]}

Agree == mode = "agree" => AgreeOne(x) /\ \A b \in Partners(x) : AgreePair(x, b)

Str == mode = "str" =>
  \A base \in {10, 16} : \A from \in {1, 3} :
    /\ NIsNumeral(x, from, base) = NIsNumeralDef(x, from, base)
    /\ NIsNumeralDef(x, from, base) => NOfNumeral(x, from, base) = NOfNumeralDef(x, from, base)
    /\ (Len(x) % 2 = 0 /\ NIsNumeralDef(x, 1, 16)) => BytesOfHex(x) = BytesOfHexDef(x)
    /\ Repeat("0", Len(x)) = RepeatDef("0", Len(x))
=============================================================================
