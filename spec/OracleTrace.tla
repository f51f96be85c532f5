------------------------------ MODULE OracleTrace -------------------------------
(* Trace specification of C03, C04, C06: a recorded program over matrix oracles  *)
(* is a behaviour of OracleMachine, and everything observed of a matrix is       *)
(* allowed by its view.                                                          *)
EXTENDS OracleMachine, Json, IOUtils

VARIABLES c, l
tvars == <<p, regs, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[c].ev
E == Ev[l]

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ p = Trace[c].p
        /\ regs = <<>>

M == regs[E.m]
A == regs[E.a]
B == regs[E.b]

\* <<<<id, x>>, ...>> as a function
Fn(s) == TLCEval([x \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = x][2]])
IsFn(s) == \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j

Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c

\* building a matrix requests nothing (events of user-supplied matrices carry q)
Push1(m) == Push(m) /\ ("q" \in DOMAIN E => E.q = <<>>)

TStore  == \E op \in {"vecvec", "mapvec", "custom"} :
             Step(op) /\ Push1(VStore(Len(regs) + 1, Fn(E.cols), Rng(E.rows), op = "vecvec"))
TTriv   == Step("trivial") /\ Push1(VTrivial(M))
TFilt   == Step("filt")    /\ Push1(VFilt(M, Fn(E.f)))
TDisc   == Step("discard") /\ Push1(M)
TBasis  == Step("basis")   /\ Push1(VBasis(M, E.b))
TSplit  == Step("split")   /\ Push1(VSplit(M, E.d))
TCons   == Step("cons")    /\ Push1(VCons(M))
TCache  == Step("cache")   /\ Push1(M)
TRef    == Step("ref")     /\ Push1(M)
TPtr    == Step("ptr")     /\ Push1(VBare(M))
TRev    == (Step("rev") \/ Step("unrev")) /\ Push1(VRev(M))
TRevRev == (Step("revrev") \/ Step("revunrev")) /\ Push1(VRev(VRev(M)))
TRevSub == (Step("revsub") \/ Step("unrevsub")) /\ CanSub(M, E.d) /\ Push1(VSub(VRev(M), E.d))
TSubRev == Step("subrev")  /\ CanSub(M, E.d) /\ Push1(VRev(VSub(M, E.d)))
TSub    == Step("sub")     /\ CanSub(M, E.d) /\ Push1(VSub(M, E.d))
TIndex  == Step("index")    /\ CanIndex(M) /\ Push1(VIndex(M))
TRevIdx == Step("revindex") /\ CanIndex(M) /\ Push1(VIndex(VRev(M)))
TSubIdx == Step("subindex") /\ CanSub(M, E.d) /\ Push1(VIndex(VSub(M, E.d)))
TProd   == Step("prod")     /\ CanProd(A, B) /\ Push1(VProd(A, B))
TProdC  == Step("prodcons") /\ CanProd(A, B) /\ Push1(VCons(VProd(A, B)))
TSum    == Step("sum")      /\ CanSum(A, B) /\ Push1(VSum(A, B))
TProd3  == Step("prodprod") /\ CanProd(B, regs[E.c]) /\ CanProd(A, B) /\ Push1(VProd(A, VProd(B, regs[E.c])))
TSumPr  == Step("sumprod")  /\ CanSum(B, regs[E.c]) /\ Push1(VProd(A, VSum(B, regs[E.c])))

ObsBasis(b, el, lk) == el = b /\ Len(lk) = Len(b) /\ Pairs(lk) = LookupOf(b)
ObsOK(m, e) ==
  LET r == e.r
      col == Fn(r.cols)
      cs == Rng(e.cs)
      rs == Rng(e.rs)
  IN \* of large matrices only some columns are observed
     /\ IF "part" \in DOMAIN e THEN cs \subseteq DOMAIN m.cols /\ rs \subseteq m.rows
        ELSE cs = DOMAIN m.cols /\ rs = m.rows
     /\ DOMAIN col = cs
     /\ \A x \in cs : ListingOK(m, x, col[x])
     /\ r.hasF = m.hasF
     /\ m.hasF =>
          LET cf == Fn(r.colf)
              bh == Fn(r.bh)
          IN /\ {<<q[1], q[2]>> : q \in Rng(r.filt)} = {<<x, m.filt[x]>> : x \in rs}
             /\ \A x \in cs : FilteredOK(m, x, col[x], cf[x]) /\ HeapOK(m, x, bh[x])
     /\ r.hasB = m.hasB
     /\ m.hasB =>
          /\ ObsBasis(m.basis, r.basis, r.look)
          /\ r.hasD = m.hasD
          /\ m.hasD =>
               /\ Len(r.dims) = Len(m.dims)
               /\ \A d \in DOMAIN m.dims : ObsBasis(m.dims[d], r.dims[d], r.dlook[d])

\* the requests made to stored matrices while one column is listed
TAsk  == /\ Step("ask") /\ E.x \in DOMAIN M.cols
         /\ {<<E.q[i][1], E.q[i][2]>> : i \in DOMAIN E.q} \subseteq M.src[E.x]
         /\ UNCHANGED ovars
TObs  == Step("obs")  /\ ObsOK(M, E) = TRUE /\ UNCHANGED ovars
TEq   == Step("eq")   /\ CanEq(A, B, E.x) /\ E.r = <<EqCol(A, B, E.x), EqCol(A, B, E.x)>> /\ UNCHANGED ovars
TBobs == Step("bobs") /\ E.r = <<E.b, NegSeq(E.b), E.b, E.b>> /\ UNCHANGED ovars
Accept == l = Len(Ev) + 1 /\ Trace[c].outcome = "ok" /\ UNCHANGED tvars

Next == \/ TStore \/ TTriv \/ TFilt \/ TDisc \/ TBasis \/ TSplit \/ TCons \/ TCache \/ TRef \/ TPtr
        \/ TRev \/ TRevRev \/ TRevSub \/ TSubRev \/ TSub \/ TIndex \/ TRevIdx \/ TSubIdx
        \/ TProd \/ TProdC \/ TSum \/ TProd3 \/ TSumPr \/ TObs \/ TAsk \/ TEq \/ TBobs \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
