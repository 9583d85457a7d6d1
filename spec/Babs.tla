-------------------------------- MODULE Babs --------------------------------
(***************************************************************************)
(* The library as its users see it: a machine with number variables        *)
(* ("registers") and one action per public call.                           *)
(*                                                                         *)
(* A register holds a number of some type (digit type): [t |-> type,       *)
(* v |-> BigNat].  The digits of a number are not part of the state: they  *)
(* are a function of t and v (Digits below), which is the canonical-form   *)
(* guarantee of the library.                                               *)
(*                                                                         *)
(* A call is a record [op |-> name, arguments...].  Effects(call, reg) is  *)
(* the set of effects the specification allows for that call in that       *)
(* state; nearly every call has exactly one.  An effect is a record        *)
(*   o  outcome: "ok", "panic", or the name of the error returned          *)
(*   w  writes: a sequence of [d |-> register, t |-> type, v |-> BigNat]   *)
(*   r  reply: what the call returns besides numbers                       *)
(*   q  class of the reply ("none", "order", "inspect", "text", "law")     *)
(*                                                                         *)
(* The same operator is used by the bounded model (MCBabs), the generator  *)
(* of behaviours (GenBabs) and the trace checker (TraceBabs).              *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets

CONSTANTS Types,         \* names of the number types
          RadixOf,       \* type -> radix (BigNat)
          BytesOf,       \* type -> bytes of storage of one digit
          LimitOf,       \* type -> number of values of its storage integer (BigNat)
          BinaryTypes,   \* the types whose digits use their storage fully
          DecimalOf,     \* binary type -> the decimal type with the same storage
          Regs           \* the registers

VARIABLES reg,           \* register -> number
          out            \* outcome and reply of the last call

Num(t, v) == [t |-> t, v |-> v]
Digits(n) == NToDigits(RadixOf[n.t], BytesOf[n.t], n.v)
NrDigits(n) == Len(Digits(n)) \div BytesOf[n.t]
StorageLimit(t) == LimitOf[t]

Wr(d, t, v) == [d |-> d, t |-> t, v |-> v]
Eff(o, w, r, q) == [o |-> o, w |-> w, r |-> r, q |-> q]
Ok1(d, t, v) == {Eff("ok", <<Wr(d, t, v)>>, <<>>, "none")}
Reply(r, q)  == {Eff("ok", <<>>, r, q)}
Panic        == {Eff("panic", <<>>, <<>>, "none")}

Bool(b) == IF b THEN 1 ELSE 0

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
\* Largest shift or exponent that is computed rather than argued about
BigExp == <<0, 0, 0, 1>>     \* 2^24

ShlV(v, n) == IF v = <<>> THEN <<>> ELSE NMul(v, NPow2(NToInt(n)))
ShrV(v, n) == IF NLeq(BigExp, n) \/ NToInt(n) > 8 * Len(v) THEN <<>>
              ELSE NDiv(v, NPow2(NToInt(n)))
PowV(v, n) == IF n = <<>> THEN NOne
              ELSE IF v = <<>> \/ v = NOne THEN v
              ELSE NPow(v, NToInt(n))

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
HexPrefix(s) == Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0x"

ParseEffects(d, t, s) ==
  LET base == IF HexPrefix(s) THEN 16 ELSE 10
      from == IF HexPrefix(s) THEN 3 ELSE 1
  IN  IF ~ NIsNumeral(s, from, base)
      THEN {Eff("InvalidNumber", <<>>, <<>>, "none")}
      ELSE IF Len(s) < from
      \* No digits at all: the documentation does not say; either answer is allowed
      THEN {Eff("InvalidNumber", <<>>, <<>>, "none")} \cup Ok1(d, t, NZero)
      ELSE Ok1(d, t, NOfNumeral(s, from, base))

\* The text of an unsigned integer under Rust's formatting rules.
\* fl: w width or -1, z zero padding, p plus sign, h alternate form,
\* al alignment ("", "<", "^", ">"), fc fill character
PadIntegral(fl, prefix, s) ==
  LET sign == IF fl.p = 1 THEN "+" ELSE ""
      pre  == IF fl.h = 1 THEN prefix ELSE ""
      body == sign \o pre \o s
      n    == fl.w - Len(body)
  IN  IF fl.w <= Len(body) THEN body
      ELSE IF fl.z = 1 THEN sign \o pre \o Repeat("0", n) \o s
      ELSE IF fl.al = "<" THEN body \o Repeat(fl.fc, n)
      ELSE IF fl.al = "^" THEN Repeat(fl.fc, n \div 2) \o body \o Repeat(fl.fc, n - n \div 2)
      ELSE Repeat(fl.fc, n) \o body

Show(n, k, fl) ==
  CASE k = "d" -> PadIntegral(fl, "", Dec(n.v))
    [] k = "x" -> PadIntegral(fl, "0x", HexLower(n.v))
    [] k = "X" -> PadIntegral(fl, "0x", HexUpper(n.v))

(***************************************************************************)
(* Arithmetic on two numbers; used for numbers and for small operands      *)
(***************************************************************************)
Arith(op, d, t, a, b) ==
  CASE op = "add" -> Ok1(d, t, NAdd(a, b))
    [] op = "sub" -> IF NLeq(b, a) THEN Ok1(d, t, NSub(a, b)) ELSE Panic
    [] op = "mul" -> Ok1(d, t, NMul(a, b))
    [] op = "div" -> IF b = <<>> THEN Panic ELSE Ok1(d, t, NDiv(a, b))
    [] op = "rem" -> IF b = <<>> THEN Panic ELSE Ok1(d, t, NMod(a, b))

BigOps   == {"add", "sub", "mul", "div", "rem"}
ShortOps == {"sadd", "ssub", "smul", "sdiv", "srem"}
LongName == [sadd |-> "add", ssub |-> "sub", smul |-> "mul", sdiv |-> "div", srem |-> "rem"]

OrderReply(a, b) ==
  LET c == NCmp(a, b)
  IN  <<c, c, Bool(c = 0), Bool(c # 0), Bool(c < 0), Bool(c <= 0), Bool(c > 0), Bool(c >= 0)>>

(***************************************************************************)
(* What a call may do                                                      *)
(***************************************************************************)
Effects(e, rg) ==
  CASE e.op = "new"   -> Ok1(e.d, e.t, NFromDigits(RadixOf[e.t], BytesOf[e.t], e.x))
    [] e.op = "from"  -> Ok1(e.d, e.t, e.n)
    [] e.op = "zero"  -> Ok1(e.d, e.t, NZero)
    [] e.op = "one"   -> Ok1(e.d, e.t, NOne)
    [] e.op = "setzero" -> Ok1(e.d, rg[e.a].t, NZero)
    [] e.op = "setone"  -> Ok1(e.d, rg[e.a].t, NOne)
    \* The decimal digits of a machine integer: whether one is enough, high digit, low digit
    [] e.op = "split" -> Reply((IF NLt(e.n, RadixOf[e.t]) THEN "1," ELSE "0,")
                               \o Dec(NDiv(e.n, RadixOf[e.t])) \o "," \o Dec(NMod(e.n, RadixOf[e.t])), "inspect")
    [] e.op = "clone" -> Ok1(e.d, rg[e.a].t, rg[e.a].v)
    [] e.op = "parse" -> ParseEffects(e.d, e.t, e.s)
    [] e.op \in BigOps -> Arith(e.op, e.d, rg[e.a].t, rg[e.a].v, rg[e.b].v)
    [] e.op \in ShortOps -> Arith(LongName[e.op], e.d, rg[e.a].t, rg[e.a].v, e.n)
    [] e.op = "shl"   -> Ok1(e.d, rg[e.a].t, ShlV(rg[e.a].v, e.n))
    [] e.op = "shr"   -> Ok1(e.d, rg[e.a].t, ShrV(rg[e.a].v, e.n))
    [] e.op = "pow"   -> Ok1(e.d, rg[e.a].t, PowV(rg[e.a].v, e.n))
    [] e.op = "square" -> Ok1(e.d, rg[e.a].t, NMul(rg[e.a].v, rg[e.a].v))
    [] e.op = "max"   -> Ok1(e.d, rg[e.a].t, IF NLt(rg[e.a].v, rg[e.b].v) THEN rg[e.b].v ELSE rg[e.a].v)
    [] e.op = "min"   -> Ok1(e.d, rg[e.a].t, IF NLt(rg[e.b].v, rg[e.a].v) THEN rg[e.b].v ELSE rg[e.a].v)
    \* Quotient to d, remainder to e; on error d keeps the dividend
    [] e.op = "divrem" ->
         LET a == rg[e.a].v b == rg[e.b].v t == rg[e.a].t
         IN  IF b = <<>> THEN {Eff("DivisionByZero", <<Wr(e.d, t, a)>>, <<>>, "none")}
             ELSE {Eff("ok", <<Wr(e.d, t, NDiv(a, b)), Wr(e.e, t, NMod(a, b))>>, <<>>, "none")}
    [] e.op = "remas" ->
         LET a == rg[e.a].v b == rg[e.b].v t == rg[e.a].t
         IN  IF b = <<>> THEN {Eff("DivisionByZero", <<Wr(e.d, t, a)>>, <<>>, "none")}
             ELSE Ok1(e.d, t, NMod(a, b))
    [] e.op = "todec" -> Ok1(e.d, DecimalOf[rg[e.a].t], rg[e.a].v)
    [] e.op = "cmp"   -> Reply(OrderReply(rg[e.a].v, rg[e.b].v), "order")
    [] e.op = "insp"  -> Reply(<<NrDigits(rg[e.a]), Bool(rg[e.a].v = NZero), Bool(rg[e.a].v = NOne)>>, "inspect")
    [] e.op = "show"  -> Reply(Show(rg[e.a], e.k, e.fl), "text")
    \* Printing a and parsing the text as type t
    [] e.op = "trip"  -> Ok1(e.d, e.t, rg[e.a].v)
    \* Not a call: a law of arithmetic says that two registers hold the same number by now.
    \* The claim is part of the history; an answer other than yes breaks the law
    [] e.op = "law"   -> Reply(<<1>>, "law")

\* When a call may be made
Callable(e, rg) ==
  /\ e.op \in BigOps \cup {"divrem", "remas", "cmp", "max", "min"} => rg[e.a].t = rg[e.b].t
  /\ e.op = "divrem" => e.d # e.e
  /\ e.op = "todec" => rg[e.a].t \in BinaryTypes
  /\ e.op = "show" => (e.k # "d" => rg[e.a].t \in BinaryTypes)
  /\ e.op = "new" => NDigitsInRange(RadixOf[e.t], BytesOf[e.t], e.x)
  /\ e.op \in {"from", "split"} => NLt(e.n, StorageLimit(e.t))
  /\ e.op = "split" => e.t \notin BinaryTypes
  /\ e.op \in ShortOps => IF e.k = "dig" THEN NLt(e.n, RadixOf[rg[e.a].t])
                                        ELSE NLt(e.n, StorageLimit(rg[e.a].t))

\* The registers after the writes w
Written(rg, w) == [r \in DOMAIN rg |->
                    IF \E i \in 1..Len(w) : w[i].d = r
                    THEN LET i == CHOOSE i \in 1..Len(w) : w[i].d = r IN Num(w[i].t, w[i].v)
                    ELSE rg[r]]

Do(e) == /\ Callable(e, reg)
         /\ \E f \in Effects(e, reg) :
              /\ reg' = Written(reg, f.w)
              /\ out' = [o |-> f.o, r |-> f.r]

(***************************************************************************)
(* The actions, one per public call                                        *)
(***************************************************************************)
New(d, t, x)      == Do([op |-> "new", d |-> d, t |-> t, x |-> x])
FromInt(d, t, n)  == Do([op |-> "from", d |-> d, t |-> t, n |-> n])
Zero(d, t)        == Do([op |-> "zero", d |-> d, t |-> t])
One(d, t)         == Do([op |-> "one", d |-> d, t |-> t])
Copy(d, a)        == Do([op |-> "clone", d |-> d, a |-> a])
Parse(d, t, s)    == Do([op |-> "parse", d |-> d, t |-> t, s |-> s])
Big(op, d, a, b)  == op \in BigOps /\ Do([op |-> op, d |-> d, a |-> a, b |-> b])
Short(op, d, a, n, k) == op \in ShortOps /\ Do([op |-> op, d |-> d, a |-> a, n |-> n, k |-> k])
Shl(d, a, n)      == Do([op |-> "shl", d |-> d, a |-> a, n |-> n])
Shr(d, a, n)      == Do([op |-> "shr", d |-> d, a |-> a, n |-> n])
Pow(d, a, n)      == Do([op |-> "pow", d |-> d, a |-> a, n |-> n])
Square(d, a)      == Do([op |-> "square", d |-> d, a |-> a])
DivRem(d, e, a, b) == Do([op |-> "divrem", d |-> d, e |-> e, a |-> a, b |-> b])
RemAssign(d, a, b) == Do([op |-> "remas", d |-> d, a |-> a, b |-> b])
Max(d, a, b)      == Do([op |-> "max", d |-> d, a |-> a, b |-> b])
Min(d, a, b)      == Do([op |-> "min", d |-> d, a |-> a, b |-> b])
ToDecimal(d, a)   == Do([op |-> "todec", d |-> d, a |-> a])
Compare(a, b)     == Do([op |-> "cmp", a |-> a, b |-> b])
Inspect(a)        == Do([op |-> "insp", a |-> a])
Print(a, k, fl)   == Do([op |-> "show", a |-> a, k |-> k, fl |-> fl])
=============================================================================
