----------------------------- MODULE TraceBabs ------------------------------
(***************************************************************************)
(* Checks executions recorded from the real library against Babs.          *)
(*                                                                         *)
(* The trace file (environment variable TRACE) has one history per line:   *)
(* [id, ev |-> sequence of events].  An event is a call (see Babs) plus    *)
(* what the library was seen to do:                                        *)
(*   o   the outcome                                                       *)
(*   w   the numbers written: <<register, type, digit bytes (hex)>>        *)
(*   r   the reply                                                         *)
(*   fr  the registers other than the written ones whose digits changed    *)
(*   g   optional: events of a history with the same g must agree          *)
(* The digits are exactly the object's digit vector, so that the state is  *)
(* fully observed and the check is linear in the length of the trace.      *)
(*                                                                         *)
(* Each event is judged in several aspects (Failing).  ENFORCE (an         *)
(* environment variable, a comma-free list of letters) says which aspects  *)
(* the property being decided is about:                                    *)
(*   o outcome   v value written    s value left by a failed call          *)
(*   c canonical digits             f frame (other registers)              *)
(*   t text      r order            i inspection         l law             *)
(*   a agreement of identical digits within a group                        *)
(*   n agreement of numbers/replies within a group (digits may differ)     *)
(* An event failing in an enforced aspect is rejected: it is not a         *)
(* behaviour of the specification.  After an event failing in another      *)
(* aspect only, the history goes on from the state actually observed, so   *)
(* that, say, a wrong product is not reported as a wrong comparison.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

CONSTANT NRegs

VARIABLES c,      \* the history
          l,      \* position of its next event
          reg,    \* as in Babs
          out,
          seen,   \* first observation of each group
          st      \* "run", "rejected" or "skipped" (history unusable from here on)
vars == <<c, l, reg, out, seen, st>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
EnforceStr == IOEnv.ENFORCE
Enforced(x) == \E i \in 1..Len(EnforceStr) : SubSeq(EnforceStr, i, i) = x

TenPow(n) == NPow(NTen, n)
TheTypes == {"b8", "b16", "b32", "b64", "d8", "d16", "d32", "d64"}
TheRadix == [b8 |-> NPow2(8), b16 |-> NPow2(16), b32 |-> NPow2(32), b64 |-> NPow2(64),
             d8 |-> TenPow(2), d16 |-> TenPow(4), d32 |-> TenPow(9), d64 |-> TenPow(19)]
TheBytes == [b8 |-> 1, b16 |-> 2, b32 |-> 4, b64 |-> 8, d8 |-> 1, d16 |-> 2, d32 |-> 4, d64 |-> 8]
TheLimit == [t \in TheTypes |-> NPow2(8 * TheBytes[t])]
TheDecimal == [b8 |-> "d8", b16 |-> "d16", b32 |-> "d32", b64 |-> "d64"]

B == INSTANCE Babs WITH Types <- TheTypes, RadixOf <- TheRadix, BytesOf <- TheBytes, LimitOf <- TheLimit,
       BinaryTypes <- {"b8", "b16", "b32", "b64"}, DecimalOf <- TheDecimal, Regs <- 1..NRegs,
       reg <- reg, out <- out

Has(e, f) == f \in DOMAIN e

\* The call of an event, with hexadecimal fields decoded
Call(e) == LET e1 == IF Has(e, "x") THEN [e EXCEPT !.x = BytesOfHex(@)] ELSE e
           IN  IF Has(e1, "n") THEN [e1 EXCEPT !.n = NNorm(BytesOfHex(@))] ELSE e1

\* The writes observed
ObsBytes(w) == BytesOfHex(w[3])
ObsVal(w)   == NFromDigits(TheRadix[w[2]], TheBytes[w[2]], ObsBytes(w))
Observed(e) == [i \in 1..Len(e.w) |-> B!Wr(e.w[i][1], e.w[i][2], ObsVal(e.w[i]))]
IsCanon(e) == \A i \in 1..Len(e.w) : NCanonical(TheRadix[e.w[i][2]], TheBytes[e.w[i][2]], ObsBytes(e.w[i]))

\* What an event contributes to its group
ObservationA(e) == [o |-> e.o, w |-> [i \in 1..Len(e.w) |-> <<e.w[i][2], e.w[i][3]>>], r |-> e.r]
ObservationN(e, ob) == [o |-> e.o, w |-> [i \in 1..Len(ob) |-> ob[i].v], r |-> e.r]
Observation(e, ob) == IF Enforced("a") THEN ObservationA(e) ELSE ObservationN(e, ob)

ReplyAspect == [none |-> "-", order |-> "r", inspect |-> "i", text |-> "t", law |-> "l"]

\* The aspects in which event e, observed to write ob, deviates from effect f
FailingEff(e, ob, f) ==
  {x \in {"o", "v", "s", "r", "i", "t", "l"} :
     \/ x = "o" /\ e.o # f.o
     \/ x = "v" /\ e.o = f.o /\ f.o = "ok" /\ ob # f.w
     \/ x = "s" /\ e.o = f.o /\ f.o # "ok" /\ ob # f.w
     \/ e.o = f.o /\ f.q # "none" /\ x = ReplyAspect[f.q] /\ e.r # f.r}

FailingRest(e, ob) ==
  (IF IsCanon(e) THEN {} ELSE {"c"})
  \cup (IF Len(e.fr) = 0 THEN {} ELSE {"f"})
  \cup (IF Has(e, "g") /\ e.g \in DOMAIN seen /\ seen[e.g] # Observation(e, ob)
        THEN {"a", "n"} ELSE {})

Bad(S) == {x \in S : Enforced(x)}

\* Of several allowed effects take one the event deviates from least
Failing(e, ob) ==
  LET fs == B!Effects(Call(e), reg)
      f  == IF \E f \in fs : FailingEff(e, ob, f) = {}
            THEN CHOOSE f \in fs : FailingEff(e, ob, f) = {}
            ELSE CHOOSE f \in fs : TRUE
  IN  FailingEff(e, ob, f) \cup FailingRest(e, ob)

NullReg == [t |-> "none", v |-> <<>>]
Init == /\ c \in 1..Len(Trace)
        /\ l = 1
        /\ reg = [r \in 1..NRegs |-> NullReg]
        /\ out = [o |-> "ok", r |-> <<>>]
        /\ seen = <<>>
        /\ st = "run"

Step ==
  /\ st = "run"
  /\ l <= Len(Trace[c].ev)
  /\ LET e   == Trace[c].ev[l]
         ob  == Observed(e)
         bad == IF ~ B!Callable(Call(e), reg) THEN {"misuse"}
                ELSE LET fl == Failing(e, ob)
                     IN  IF Bad(fl) # {} THEN Bad(fl)
                         \* an unexpected failure leaves nothing to go on with
                         ELSE IF "o" \in fl /\ Len(e.w) = 0 /\ ~ Has(e, "g") THEN {"skip"}
                         ELSE {}
     IN  /\ reg' = B!Written(reg, ob)
         /\ out' = [o |-> e.o, r |-> e.r]
         /\ seen' = IF Has(e, "g") /\ e.g \notin DOMAIN seen
                    THEN (e.g :> Observation(e, ob)) @@ seen ELSE seen
         /\ st' = IF bad = {} THEN "run" ELSE IF bad = {"skip"} THEN "skipped" ELSE "rejected"
         /\ IF bad = {} THEN TRUE
            ELSE PrintT(<<IF bad = {"skip"} THEN "SKIPPED" ELSE "REJECT", Trace[c].id, l, e.op, bad>>)
  /\ l' = l + 1
  /\ UNCHANGED c

Next == Step
Spec == Init /\ [][Next]_vars

\* Counters for the orchestrator: how many states there must be if nothing was rejected
NrEvents == LET RECURSIVE Sum(_) 
                Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(Trace[i].ev)
            IN  Sum(Len(Trace))
=============================================================================
