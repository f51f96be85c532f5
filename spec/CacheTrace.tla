------------------------------- MODULE CacheTrace -------------------------------
(* Trace specification of C05 over CacheMachine *)
EXTENDS CacheMachine, Json, IOUtils
VARIABLES c, l
tvars == <<p, regs, root, use, cnt, memo, its, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[c].ev
E == Ev[l]

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ p = Trace[c].p
        /\ regs = <<>> /\ root = <<>> /\ use = <<>>
        /\ cnt = [y \in {} |-> 0] /\ memo = [y \in {} |-> 0] /\ its = [y \in {} |-> 0]

Fn(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = x][2]]
Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c

TBase == Step("base") /\ Base(VBasis(VFilt(VStore(Len(regs) + 1, Fn(E.cols), Rng(E.rows), FALSE), Fn(E.f)), E.b), E.q)
TRec  == Step("rec")   /\ RecOf(E.m, E.q)
TCache == Step("cache") /\ CacheOf(E.m, E.q)
TClone == Step("clone") /\ CloneOf(E.m, E.below, E.q)
TCons == Step("cons") /\ View1(VCons(regs[E.m]), E.m, E.q)
TRev  == Step("rev")  /\ View1(VRev(regs[E.m]), E.m, E.q)
TProd == Step("prod") /\ CanProd(regs[E.a], regs[E.b]) /\ View2(VProd(regs[E.a], regs[E.b]), E.a, E.b, E.q)
TSum  == Step("sum")  /\ CanSum(regs[E.a], regs[E.b])  /\ View2(VSum(regs[E.a], regs[E.b]), E.a, E.b, E.q)
TOpen == Step("open") /\ Open(E.i, E.m, E.x, E.q)
TNext == Step("next") /\ Advance(E.i, E.r, E.q)
TDrop == Step("drop") /\ Drop(E.i, E.q)
TCol  == Step("col")  /\ Column(E.m, E.x, E.r, E.q)
TColF == Step("colf") /\ ColumnF(E.m, E.x, E.r, E.q)
THeap == Step("heap") /\ Heap(E.m, E.x, E.r, E.q)
TMeta == Step("meta") /\ E.hf = regs[E.m].hasF /\ E.hb = regs[E.m].hasB /\ Meta(E.m, E.f, E.b, E.q)
TRed  == Step("reduce") /\ Reduce(E.m, E.q)
Accept == l = Len(Ev) + 1 /\ Trace[c].outcome = "ok" /\ UNCHANGED tvars

Next == \/ TBase \/ TRec \/ TCache \/ TClone \/ TCons \/ TRev \/ TProd \/ TSum \/ TOpen \/ TNext \/ TDrop
        \/ TCol \/ TColF \/ THeap \/ TMeta \/ TRed \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
