------------------------------- MODULE HeapTrace -------------------------------
(* Trace specification of C02: every recorded heap program is a behaviour of    *)
(* ColumnHeap.  A rejected record leaves the state (c, l) without successor.    *)
EXTENDS ColumnHeap, Json, IOUtils

VARIABLES c, l
tvars == <<p, bags, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[c].ev
E == Ev[l]

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ p = Trace[c].p
        /\ bags = [h \in 1..Trace[c].nh |-> NoTerms]

Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c

TAdd    == Step("add")   /\ AddTerms(E.h, <<E.t>>)
TAdds   == Step("adds")  /\ AddTerms(E.h, E.ts)
TAddSc  == Step("addsc") /\ AddScaled(E.h, E.ts, E.c)
TPop    == Step("pop")   /\ Pop(E.h, E.r)
TClone  == Step("clone") /\ ClonePivot(E.h, E.r)
TPeek   == Step("peek")  /\ Peek(E.h, E.r)
TDrain  == Step("drain") /\ Drain(E.h, E.n, E.r)
TVec    == Step("vec")   /\ ToVec(E.h, E.r)
TCopy   == Step("copy")  /\ Copy(E.h, E.from)
TScale  == Step("scale") /\ E.r = Scaled(p, <<E.t>>, E.c) /\ UNCHANGED hvars
\* entries are ordered by filtration value, then row; equality looks at the row only
TCmp    == /\ Step("cmp")
           /\ LET o == IF E.a[3] # E.b[3] THEN (IF E.a[3] < E.b[3] THEN -1 ELSE 1)
                       ELSE IF E.a[2] = E.b[2] THEN 0 ELSE IF E.a[2] < E.b[2] THEN -1 ELSE 1
              IN E.r = <<E.a[2] = E.b[2], o < 0, o >= 0, o, TRUE>>
           /\ UNCHANGED hvars
Accept  == l = Len(Ev) + 1 /\ Trace[c].outcome = "ok" /\ UNCHANGED tvars

Next == TAdd \/ TAdds \/ TAddSc \/ TPop \/ TClone \/ TPeek \/ TDrain \/ TVec \/ TCopy \/ TScale \/ TCmp \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
