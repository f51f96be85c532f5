------------------------------ MODULE FieldTrace -------------------------------
(* Trace specification of C01.  E.r is the observed result; the register        *)
(* contents are those of the specification.                                     *)
EXTENDS FieldMachine, Json, IOUtils

VARIABLES c, l
tvars == <<p, regs, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[c].ev
E == Ev[l]

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ p = Trace[c].p /\ regs = <<>>

NA == "na" \in DOMAIN E                 \* the harness saw an absent operand and did nothing
Step(op) == l <= Len(Ev) /\ E.op = op /\ ~NA /\ l' = l + 1 /\ UNCHANGED c
\* the observed result is the value pushed by the specification
Sees == E.r = regs'[Len(regs')]

TOne  == Step("one")  /\ One /\ Sees
TAdd  == Step("add")  /\ Add(E.a, E.b) /\ Sees
TAddO == Step("addo") /\ AddOpt(E.a, E.b) /\ Sees
TMul  == Step("mul")  /\ Mul(E.a, E.b) /\ Sees
TNeg  == Step("neg")  /\ Neg(E.a) /\ Sees
TInv  == Step("inv")  /\ Inv(E.a) /\ Sees
TEq   == /\ Step("eq") /\ NZ(E.a) /\ NZ(E.b)
         /\ E.r = <<regs[E.a] = regs[E.b], regs[E.a] # regs[E.b]>>
         /\ Push(FZero(p))
TNa   == /\ l <= Len(Ev) /\ NA /\ l' = l + 1 /\ UNCHANGED c
         /\ CASE E.op \in {"add", "mul", "eq"} -> ~NZ(E.a) \/ ~NZ(E.b)
              [] E.op \in {"addo", "neg", "inv"} -> ~NZ(E.a)
              [] OTHER -> FALSE
         /\ Push(FZero(p))
Accept == l = Len(Ev) + 1 /\ Trace[c].outcome = "ok" /\ UNCHANGED tvars

Next == TOne \/ TAdd \/ TAddO \/ TMul \/ TNeg \/ TInv \/ TEq \/ TNa \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
