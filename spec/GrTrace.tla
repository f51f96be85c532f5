-------------------------------- MODULE GrTrace ---------------------------------
(* Trace specification of C16 (matrices of a grounded filtered digraph), C17     *)
(* (barcodes) and C18 (representatives).                                         *)
EXTENDS Gr, Json, IOUtils
VARIABLES st, c, l
(* st.tm, st.G   the filtered digraph and its grounding                          *)
(* st.cob        columns of the coboundary matrix seen so far, cell -> vector    *)
(* st.A, st.b, st.fin   analysis, Betti table, finite degree 1 bars (C17, C18)   *)
(* st.left       bars for which no representative was seen yet                   *)
tvars == <<st, c, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[c]
Ev == T.ev
E == Ev[l]
Rng(s) == {s[i] : i \in DOMAIN s}
n == T.n
p == T.p

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = [tm |-> VEmpty]
Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c
Same == UNCHANGED st

\* ---- C16 ---------------------------------------------------------------------------
\* cells: <<0, a>> node, <<1, a, b>> edge, <<2, a, b>> a -> b -> a, <<3, a, b, c>> directed triangle,
\* <<4, a, b, c, d>> long square  acd - abd
One(x) == (x :> FOne(p))
IsCell(x) == /\ x[1] \in 0..4 /\ Len(x) = <<2, 3, 3, 4, 5>>[x[1] + 1]
             /\ \A i \in 2..Len(x) : x[i] \in 0..(n - 1)
\* the 2-chain of a 2-cell
Chain(x) == CASE x[1] = 2 -> One(<<x[2], x[3], x[2]>>)
              [] x[1] = 3 -> One(<<x[2], x[3], x[4]>>)
              [] x[1] = 4 -> VAdd(p, One(<<x[2], x[4], x[5]>>), VNeg(p, One(<<x[2], x[3], x[5]>>)))
EdgeCell(v) == [k \in {<<1, e[1], e[2]>> : e \in DOMAIN v} |-> v[<<k[2], k[3]>>]]
NodeCell(v) == [k \in {<<0, e>> : e \in DOMAIN v} |-> v[k[2]]]
Bd(x) == CASE x[1] = 0 -> VEmpty
           [] x[1] = 1 -> NodeCell(Bd1(p, <<x[2], x[3]>>))
           [] OTHER    -> EdgeCell(Bd2(p, Chain(x)))
\* filtration value of a cell: when its chain enters Omega_2 (all its paths and its boundary are there)
EdgeTime(e) == IF e \in DOMAIN st.tm THEN st.tm[e] ELSE INF
CellTime(x) == CASE x[1] = 0 -> 0
                 [] x[1] = 1 -> BornAt(st.tm, st.G, <<x[2], x[3]>>)
                 [] OTHER    -> Max({EdgeTime(<<q[1], q[2]>>) : q \in DOMAIN Chain(x)} \cup {EdgeTime(<<q[2], q[3]>>) : q \in DOMAIN Chain(x)}
                                    \cup {EdgeTime(e) : e \in DOMAIN Bd2(p, Chain(x))})
Cells2(M) == UNION {DOMAIN M[x] : x \in {y \in DOMAIN M : y[1] = 1}}
EdgeCells == {<<1, e[1], e[2]>> : e \in AllEdges(st.tm, st.G)}
Vec(r) == SumTerms(p, [i \in DOMAIN r |-> <<r[i][1], r[i][2]>>])

TDigraph ==
  /\ Step("digraph")
  /\ st' =
     LET t == TLCEval([e \in {<<T.times[i][1], T.times[i][2]>> : i \in DOMAIN T.times} |->
                         T.times[CHOOSE i \in DOMAIN T.times : <<T.times[i][1], T.times[i][2]>> = e][3]])
     IN [tm |-> t, G |-> {<<T.ground[i][1], T.ground[i][2]>> : i \in DOMAIN T.ground}, cob |-> VEmpty]
TBasis ==
  /\ Step("basis")
  /\ E.nodes = SelectSeq(E.all, LAMBDA x : x[1] = 0) /\ E.edges = SelectSeq(E.all, LAMBDA x : x[1] = 1)
  /\ Len(E.all) = Len(E.nodes) + Len(E.edges)
  /\ Rng(E.nodes) = {<<0, a>> : a \in 0..(n - 1)} /\ Len(E.nodes) = n
  /\ Rng(E.edges) = EdgeCells /\ Len(E.edges) = Cardinality(EdgeCells)
  /\ \A i \in 1..(Len(E.edges) - 1) : CellTime(E.edges[i]) <= CellTime(E.edges[i + 1])
  /\ Same
TCob ==
  /\ Step("cob")
  /\ \E v \in {Vec(E.r)} :
     /\ \A x \in DOMAIN v : IsCell(x) /\ x[1] = (IF E.s[1] = 0 THEN 1 ELSE x[1])
                            /\ E.s \in DOMAIN Bd(x) /\ v[x] = Bd(x)[E.s]
     /\ IF E.s[1] = 0 THEN DOMAIN v = {x \in EdgeCells : E.s \in DOMAIN Bd(x)}
        ELSE \A x \in DOMAIN v : x[1] >= 2
     /\ st' = [st EXCEPT !.cob = (E.s :> v) @@ @]
\* the filtered column lists the terms of the column, each with its value
TFCob == /\ Step("fcob")
         /\ Vec(E.r) = st.cob[E.s]
         /\ \A i \in DOMAIN E.r : E.r[i][3] = CellTime(E.r[i][2])
         /\ Same
TBd == Step("bd") /\ Vec(E.r) = Bd(E.s) /\ Same
TFBd == /\ Step("fbd") /\ Vec(E.r) = Bd(E.s)
        /\ \A i \in DOMAIN E.r : E.r[i][3] = CellTime(E.r[i][2])
        /\ Same
TFVal == Step("fval") /\ E.r = CellTime(E.s) /\ Same
\* all columns were seen: transposed, and the 2-cells are a basis at every time
Code(x) == x[1] * n * n + x[2] * n + x[3]
IntVec(u) == [k \in {Code(x) : x \in DOMAIN u} |-> u[CHOOSE x \in DOMAIN u : Code(x) = k]]
AllOK ==
     LET C == TLCEval(Cells2(st.cob))
         ct == TLCEval([x \in C |-> CellTime(x)])
         seq == SetToSeq(C)
     IN /\ DOMAIN st.cob = EdgeCells \cup {<<0, a>> : a \in 0..(n - 1)}
        /\ \A x \in C : \A e \in DOMAIN Bd(x) : e \in DOMAIN st.cob /\ x \in DOMAIN st.cob[e]
        /\ Rank(p, [i \in DOMAIN seq |-> IntVec(Chain(seq[i]))]) = Cardinality(C)
        /\ LET mids == MidsOf(n, st.tm) IN
           \A t \in Times(st.tm) : Cardinality({x \in C : ct[x] <= t}) = FastDim(n, st.tm, mids, t)
        /\ \A x \in C : ct[x] < INF
TAll == Step("all") /\ AllOK = TRUE /\ Same

\* ---- C17, C18 ------------------------------------------------------------------------
TInput ==
  /\ Step("input")
  /\ st' =
     LET W == {<<T.edges[i][1], T.edges[i][2], T.edges[i][3]>> : i \in DOMAIN T.edges}
         tm == Shortest(n, W)
         G == {<<w[1], w[2]>> : w \in W}
         A == TLCEval(FastAnalysis(n, tm, G))
         b == FastBetti1(n, A)
     IN [tm |-> tm, G |-> G, A |-> A, b |-> b, fin |-> FastFin1(A, b), left |-> VEmpty]
Two(q) == [i \in DOMAIN q |-> <<q[i][1], q[i][2]>>]
TBars ==
  /\ Step("bars")
  /\ Len(E.ess) = 2 /\ Len(E.fin) = 2
  /\ Count(E.ess[1]) = FastEss0(st.A) /\ Count(Two(E.fin[1])) = FastFin0(st.A)
  /\ Count(E.ess[2]) = FastEss1(st.A, st.b) /\ Count(Two(E.fin[2])) = st.fin
  /\ Same
\* representatives follow: each takes the bar it certifies off the list
TReps == Step("reps") /\ st' = [st EXCEPT !.left = st.fin]
TRep ==
  /\ Step("rep")
  /\ \E S \in {{<<E.e[i][1], E.e[i][2]>> : i \in DOMAIN E.e}} :
        /\ S # {} /\ Len(E.e) = Cardinality(S)
        /\ S \subseteq AllEdges(st.tm, st.G)
        /\ \A a \in 0..(n - 1) : Cardinality({e \in S : e[1] = a /\ e[2] # a}) % 2 = Cardinality({e \in S : e[2] = a /\ e[1] # a}) % 2
        /\ \E bar \in {<<Max({BornAt(st.tm, st.G, e) : e \in S}), FDeath(st.A.ech, {st.A.at[e] : e \in S})>>} :
              /\ bar \in DOMAIN st.left
              /\ st' = [st EXCEPT !.left = IF @[bar] = 1 THEN [y \in DOMAIN @ \ {bar} |-> @[y]] ELSE [@ EXCEPT ![bar] = @ - 1]]
TRepsEnd == Step("repsend") /\ st.left = VEmpty /\ Same

View == <<c, l>>      \* steps are functions of the record: one state per position
Accept == l = Len(Ev) + 1 /\ T.outcome = "ok" /\ UNCHANGED tvars
Next == TDigraph \/ TBasis \/ TCob \/ TFCob \/ TBd \/ TFBd \/ TFVal \/ TAll \/ TInput \/ TBars \/ TReps \/ TRep \/ TRepsEnd \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
