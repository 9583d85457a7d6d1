------------------------------- MODULE MCBabs -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the abstract machine on two tiny types: a     *)
(* binary one with digits 0..3 and its decimal counterpart with digits     *)
(* 0..2 in the same storage (so that, as with the real decimal types, some *)
(* machine integers do not fit into a digit).  Every call of the interface *)
(* with every argument in bounds is a transition; numbers stay below Max.  *)
(*                                                                         *)
(* What is checked is that the specification itself has the properties     *)
(* that are claimed of the library, in every reachable state: the laws     *)
(* between operations, agreement of small and big operands, order,         *)
(* canonical digits, text round trips, independence of the digit type and  *)
(* what failing calls leave behind.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat

CONSTANTS Max,          \* bound on the numbers
          MaxShift, MaxExp

VARIABLES reg, out, last

Tiny == {"b", "d"}
TheRadix == [b |-> <<4>>, d |-> <<3>>]
B == INSTANCE Babs WITH Types <- Tiny, RadixOf <- TheRadix, BytesOf <- [b |-> 1, d |-> 1],
       LimitOf <- [b |-> <<4>>, d |-> <<4>>], BinaryTypes <- {"b"}, DecimalOf <- [b |-> "d"], Regs <- 1..2,
       reg <- reg, out <- out

Regs == 1..2
Ints == {NOfInt(n) : n \in 0..3}
Small == {NOfInt(n) : n \in 0..Max}
Shifts == {NOfInt(n) : n \in 0..MaxShift}
Exps == {NOfInt(n) : n \in 0..MaxExp}
DigitSeqs == UNION {[1..k -> 0..3] : k \in 0..3}
Texts == {"", "0", "00", "1", "12", "0x", "0x0", "0xa", "0xA", "0x0b", "0X1", "+1", "1 ", "x", "0x1g", "a", "0x0x1", "-0"}
Flags == {[w |-> w, z |-> z, p |-> p, h |-> h, al |-> al, fc |-> fc] :
            w \in {-1, 0, 3, 6}, z \in {0, 1}, p \in {0, 1}, h \in {0, 1}, al \in {"", "<", "^", ">"}, fc \in {" ", "*"}}
Plain == [w |-> -1, z |-> 0, p |-> 0, h |-> 0, al |-> "", fc |-> " "]
Hash  == [Plain EXCEPT !.h = 1]

Calls ==
  {[op |-> "new", d |-> d, t |-> t, x |-> x] : d \in Regs, t \in Tiny, x \in DigitSeqs}
  \cup {[op |-> "from", d |-> d, t |-> t, n |-> n] : d \in Regs, t \in Tiny, n \in Ints}
  \cup {[op |-> o, d |-> d, t |-> t] : o \in {"zero", "one"}, d \in Regs, t \in Tiny}
  \cup {[op |-> "parse", d |-> 1, t |-> t, s |-> s] : t \in Tiny, s \in Texts}
  \cup {[op |-> o, d |-> d, a |-> a] : o \in {"clone", "square", "todec", "setzero", "setone"}, d \in Regs, a \in Regs}
  \cup {[op |-> o, d |-> d, a |-> a, b |-> b] : o \in B!BigOps \cup {"max", "min", "remas"}, d \in Regs, a \in Regs, b \in Regs}
  \cup {[op |-> "divrem", d |-> d, e |-> 3 - d, a |-> a, b |-> b] : d \in Regs, a \in Regs, b \in Regs}
  \cup {[op |-> o, d |-> 1, a |-> a, n |-> n, k |-> k] : o \in B!ShortOps, a \in Regs, n \in Ints, k \in {"dig", "int"}}
  \cup {[op |-> o, d |-> d, a |-> a, n |-> n] : o \in {"shl", "shr"}, d \in Regs, a \in Regs, n \in Shifts}
  \cup {[op |-> "pow", d |-> d, a |-> a, n |-> n] : d \in Regs, a \in Regs, n \in Exps}
  \cup {[op |-> "trip", d |-> 1, a |-> a, t |-> t, k |-> "d"] : a \in Regs, t \in Tiny}
  \cup {[op |-> "cmp", a |-> 1, b |-> 2], [op |-> "insp", a |-> 1]}

InBounds(rg) == \A r \in Regs : NLeq(rg[r].v, NOfInt(Max))

Init == /\ reg = [r \in Regs |-> B!Num("b", NZero)]
        /\ out = [o |-> "ok", r |-> <<>>]
        /\ last = "init"
Next == \E e \in Calls :
          /\ B!Callable(e, reg)
          /\ \E f \in B!Effects(e, reg) :
               /\ reg' = B!Written(reg, f.w)
               /\ out' = [o |-> f.o, r |-> <<>>]     \* replies are judged below, not part of the state
          /\ InBounds(reg')
          /\ last' = e.op
Spec == Init /\ [][Next]_<<reg, out, last>>
\* Which call led to a state does not matter, only which failures occur after it
View == <<reg, out.o>>

\* ---------------------------------------------------------------- properties
Val(e)  == LET f == CHOOSE f \in B!Effects(e, reg) : TRUE IN f.w[1].v
Fails(e) == (CHOOSE f \in B!Effects(e, reg) : TRUE).o # "ok"
V1 == reg[1].v
V2 == reg[2].v
T1 == reg[1].t
SameType == reg[1].t = reg[2].t
Op(o, a, b) == [op |-> o, d |-> 1, a |-> a, b |-> b]
\* Value of the operation on given values
On(o, a, b) == LET f == CHOOSE f \in B!Arith(o, 1, T1, a, b) : TRUE IN f.w[1].v

Canonical ==          \* C12, C17
  \A r \in Regs : LET d == B!Digits(reg[r]) IN
    /\ NCanonical(TheRadix[reg[r].t], 1, d)
    /\ NFromDigits(TheRadix[reg[r].t], 1, d) = reg[r].v
    /\ (reg[r].v = NZero) = (d = <<>>)
    /\ \A n \in 0..2 : LET z == d \o [i \in 1..n |-> 0]
                       IN Val([op |-> "new", d |-> 1, t |-> reg[r].t, x |-> z]) = reg[r].v

DigitsLess(x, y) == \/ Len(x) < Len(y)
                    \/ /\ Len(x) = Len(y)
                       /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in (i+1)..Len(x) : x[j] = y[j]
Order ==              \* C13: the numerical order is the order of the digit sequences
  SameType =>
    LET x == B!Digits(reg[1]) y == B!Digits(reg[2]) c == B!OrderReply(V1, V2)
    IN  /\ (c[1] = -1) = DigitsLess(x, y) /\ (c[1] = 0) = (x = y) /\ (c[1] = 1) = DigitsLess(y, x)
        /\ c[1] = -(B!OrderReply(V2, V1)[1])
        /\ Val(Op("max", 1, 2)) = (IF DigitsLess(x, y) THEN V2 ELSE V1)
        /\ Val(Op("min", 1, 2)) = (IF DigitsLess(y, x) THEN V2 ELSE V1)

Laws ==               \* C20, with C01..C05
  SameType =>
    LET s == Val(Op("add", 1, 2)) p == Val(Op("mul", 1, 2)) IN
    /\ s = Val(Op("add", 2, 1)) /\ p = Val(Op("mul", 2, 1))
    /\ On("sub", s, V2) = V1 /\ On("sub", s, V1) = V2
    /\ Fails(Op("sub", 1, 2)) = NLt(V1, V2)
    /\ ~ Fails(Op("sub", 1, 2)) => On("add", Val(Op("sub", 1, 2)), V2) = V1
    /\ Fails(Op("div", 1, 2)) = (V2 = NZero) /\ Fails(Op("rem", 1, 2)) = (V2 = NZero)
    /\ V2 # NZero =>
         LET q == Val(Op("div", 1, 2)) r == Val(Op("rem", 1, 2)) IN
         /\ On("add", On("mul", q, V2), r) = V1 /\ NLt(r, V2)
         /\ On("div", p, V2) = V1 /\ On("rem", p, V2) = NZero
         /\ LET f == CHOOSE f \in B!Effects([op |-> "divrem", d |-> 1, e |-> 2, a |-> 1, b |-> 2], reg) : TRUE
            IN  f.o = "ok" /\ f.w[1].v = q /\ f.w[2].v = r
    /\ On("mul", s, s) = On("add", On("add", On("mul", V1, V1), On("mul", V2, V2)), On("mul", NTwo, p))
    /\ \A c \in Ints : /\ On("mul", V1, On("add", V2, c)) = On("add", p, On("mul", V1, c))
                       /\ On("add", s, c) = On("add", V1, On("add", V2, c))
                       /\ On("mul", p, c) = On("mul", V1, On("mul", V2, c))

Shifting ==           \* C07, C08
  \A n \in Shifts : LET sh == [op |-> "shl", d |-> 1, a |-> 1, n |-> n] sr == [sh EXCEPT !.op = "shr"] p2 == NPow2(NToInt(n)) IN
    /\ Val(sh) = On("mul", V1, p2) /\ Val(sr) = On("div", V1, p2)
    /\ B!ShrV(Val(sh), n) = V1

Powers ==             \* C04
  \A n \in Exps : LET e == [op |-> "pow", d |-> 1, a |-> 1, n |-> n] IN
    /\ n = NZero => Val(e) = NOne
    /\ n = NTwo => Val(e) = Val([op |-> "square", d |-> 1, a |-> 1])
    /\ B!PowV(V1, NAdd(n, NOne)) = On("mul", Val(e), V1)

SmallOperands ==      \* C06
  \A o \in B!ShortOps : \A n \in Ints :
    LET fs == B!Effects([op |-> o, d |-> 1, a |-> 1, n |-> n, k |-> "int"], reg)
    IN  fs = B!Arith(B!LongName[o], 1, T1, V1, n)

ErrorsKeep ==         \* C14
  SameType /\ V2 = NZero =>
    \A o \in {"divrem", "remas"} :
      \A f \in B!Effects([op |-> o, d |-> 1, e |-> 2, a |-> 1, b |-> 2], reg) :
        f.o = "DivisionByZero" /\ f.w = <<B!Wr(1, T1, V1)>>

Text ==               \* C09, C10, C18
  /\ \A t \in Tiny : \A k \in (IF T1 = "b" THEN {"d", "x", "X"} ELSE {"d"}) :
       LET s == B!Show(reg[1], k, IF k = "d" THEN Plain ELSE Hash)
       IN  B!ParseEffects(1, t, s) = B!Ok1(1, t, V1)
  /\ B!Show(reg[1], "d", Plain) = ToString(NToInt(V1))
  /\ \A fl \in Flags : LET s == B!Show(reg[1], "d", fl) IN
       /\ Len(s) >= fl.w
       /\ (fl.w <= 0 \/ Len(s) > fl.w) => s = (IF fl.p = 1 THEN "+" ELSE "") \o Dec(V1)
       /\ fl.z = 1 /\ fl.p = 0 => B!ParseEffects(1, "b", s) = B!Ok1(1, "b", V1)

OtherType == [b |-> "d", d |-> "b"]
TypeIndependence ==   \* C11, C19: the same registers in the other type behave the same
  LET other == [r \in Regs |-> B!Num(OtherType[reg[r].t], reg[r].v)]
      vals(fs) == {[o |-> f.o, r |-> f.r, v |-> [i \in 1..Len(f.w) |-> f.w[i].v]] : f \in fs}
  IN  /\ \A e \in {x \in Calls : x.op \in B!BigOps \cup B!ShortOps \cup {"divrem", "remas", "cmp", "max", "min", "shl", "shr", "pow", "square"}} :
           B!Callable(e, reg) /\ B!Callable(e, other) => vals(B!Effects(e, reg)) = vals(B!Effects(e, other))
      /\ T1 = "b" => LET f == CHOOSE f \in B!Effects([op |-> "todec", d |-> 1, a |-> 1], reg) : TRUE
                     IN  f.w = <<B!Wr(1, "d", V1)>>

\* Failing calls and replies change no register but the one they write (C14, C15)
Frame == [][ \/ reg'[1] = reg[1] \/ reg'[2] = reg[2] \/ last' = "divrem" ]_<<reg, out, last>>

Bounded == InBounds(reg)
=============================================================================
