----------------------------------- MODULE Gr -----------------------------------
(* C16-C18.  Grounded persistent path homology of a digraph with edge times,     *)
(* from the definition.                                                          *)
(*   n    nodes 0..n-1                                                           *)
(*   tm   edge times: a function <<a, b>> -> time on the edges that ever appear  *)
(*        in the filtration (a # b)                                              *)
(*   G    the grounding: the edges of the input graph, present from time 0       *)
(* Chains at time t: nodes; edges of G and those with tm <= t; the 2-chains      *)
(* Omega_2 of path homology of the digraph {tm <= t} (without the grounding).    *)
EXTENDS Sparse

INF == 999999
EdgesAt(tm, t) == {e \in DOMAIN tm : tm[e] <= t}
AllEdges(tm, G) == G \cup DOMAIN tm
BornAt(tm, G, e) == IF e \in G THEN 0 ELSE tm[e]
Times(tm) == {0} \cup {tm[e] : e \in DOMAIN tm}

\* allowed 2-paths a -> b -> c of a digraph (edge set H); c = a allowed
TwoPaths(n, H) == {<<a, b, c>> \in (0..(n - 1)) \X (0..(n - 1)) \X (0..(n - 1)) : <<a, b>> \in H /\ <<b, c>> \in H}
\* regular boundary of a 2-path: bc - ac + ab, where aa counts as zero
Path2(p, x) == LET a == x[1]
                   b == x[2]
                   c == x[3]
                   ends == VAdd(p, (<<b, c>> :> FOne(p)), (<<a, b>> :> FOne(p)))
               IN IF a = c THEN ends ELSE VAdd(p, ends, (<<a, c>> :> FNeg(p, FOne(p))))
\* boundary of a 2-chain (a function 2-path -> coefficient)
Bd2(p, u) == FoldSet(LAMBDA x, acc : VAxpy(p, acc, u[x], Path2(p, x)), VEmpty, DOMAIN u)
Bd1(p, e) == VAdd(p, (e[2] :> FOne(p)), (e[1] :> FNeg(p, FOne(p))))
\* u lies in Omega_2 of the digraph H
InOmega(p, n, H, u) == DOMAIN u \subseteq TwoPaths(n, H) /\ DOMAIN Bd2(p, u) \subseteq H
\* dimension: 2-paths minus the conditions (one for each non-edge a -> c bridged by some path)
Conditions(n, H) == {<<x[1], x[3]>> : x \in {y \in TwoPaths(n, H) : y[1] # y[3]}} \ H
DimOmega(n, H) == Cardinality(TwoPaths(n, H)) - Cardinality(Conditions(n, H))
\* 2-chains that span Omega_2: paths over edges (or returning), differences over non-edges
SpanOmega(p, n, H) ==
  LET P == TwoPaths(n, H)
      cond == Conditions(n, H)
      mids == TLCEval([q \in cond |-> {b \in 0..(n - 1) : <<q[1], b, q[2]>> \in P}])
  IN {(x :> FOne(p)) : x \in {y \in P : <<y[1], y[3]>> \notin cond}}
     \cup UNION {LET m == Min(mids[q]) IN
                 {(<<q[1], b, q[2]>> :> FOne(p)) @@ (<<q[1], m, q[2]>> :> FNeg(p, FOne(p))) : b \in mids[q] \ {m}} : q \in cond}

\* ---- the barcode ----------------------------------------------------------------
\* edges in order of birth, as positions
EdgeSeq(tm, G) == SetToSortSeq(AllEdges(tm, G),
                    LAMBDA x, y : BornAt(tm, G, x) < BornAt(tm, G, y)
                      \/ (BornAt(tm, G, x) = BornAt(tm, G, y) /\ (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))))
\* B_1 as a sequence of <<vector over positions, time>> in order of time: those up to t span B_1(t)
BdGens(p, n, tm, at) ==
  LET ts == SetToSortSeq({tm[e] : e \in DOMAIN tm}, <)
      gens == TLCEval([k \in DOMAIN ts |-> SpanOmega(p, n, EdgesAt(tm, ts[k]))])
      new == TLCEval([k \in DOMAIN ts |-> IF k = 1 THEN gens[1] ELSE gens[k] \ gens[k - 1]])
      vec(u) == LET b == Bd2(p, u) IN [r \in {at[e] : e \in DOMAIN b} |-> b[CHOOSE e \in DOMAIN b : at[e] = r]]
      one(k) == LET s == SetToSeq(new[k]) IN [i \in DOMAIN s |-> <<vec(s[i]), ts[k]>>]
  IN FoldLeft(LAMBDA acc, k : acc \o TLCEval(one(k)), <<>>, [k \in DOMAIN ts |-> k])
IndepStep(p, cs, lo, o, k) ==
  LET r == Elim(p, o.ech, VRestrict(cs[k][1], {x \in DOMAIN cs[k][1] : x >= lo}))
  IN IF DOMAIN r = {} THEN o
     ELSE TLCEval([ech |-> (MaxOf(DOMAIN r) :> r) @@ o.ech, acc |-> o.acc \cup {k}])
Indep(p, cs, lo) == FoldLeftDomain(LAMBDA o, k : IndepStep(p, cs, lo, o, k), [ech |-> VEmpty, acc |-> {}], cs).acc
\* number of weak components of the graph with edge set H
RankBd1(p, H) == LET s == SetToSeq(H) IN Rank(p, [i \in DOMAIN s |-> Bd1(p, s[i])])

\* everything about one filtered digraph
Analysis(p, n, tm, G) ==
  LET es == TLCEval(EdgeSeq(tm, G))
      at == TLCEval([e \in AllEdges(tm, G) |-> CHOOSE i \in DOMAIN es : es[i] = e])
  IN [at |-> at, es |-> es,
      ts |-> SetToSortSeq(Times(tm), <),
      born |-> TLCEval([i \in DOMAIN es |-> BornAt(tm, G, es[i])]),
      bs |-> TLCEval(BdGens(p, n, tm, at))]
\* Betti table: dimension of the image of H_1 at time ts[i] in H_1 at time ts[j], i <= j  (row 0: zero)
Betti1(p, n, A) ==
  LET m == Len(A.ts)
      before(i) == Cardinality({x \in DOMAIN A.born : A.born[x] <= A.ts[i]})   \* edges present at ts[i]
      ind == TLCEval([i \in 0..m |-> Indep(p, A.bs, IF i = 0 THEN 1 ELSE before(i) + 1)])
      cyc == TLCEval([i \in 1..m |-> before(i) - RankBd1(p, {A.es[x] : x \in 1..before(i)})])
      upto(S, t) == Cardinality({k \in S : A.bs[k][2] <= t})
  IN TLCEval([q \in (0..m) \X (1..m) |->
       IF q[1] = 0 \/ q[1] > q[2] THEN 0
       ELSE cyc[q[1]] - (upto(ind[0], A.ts[q[2]]) - upto(ind[q[1]], A.ts[q[2]]))])
\* finite bars <<birth, death>> and essential births of degree 1, with multiplicities
FinBars1(A, b) ==
  LET m == Len(A.ts)
      cand == {q \in (1..m) \X (1..m) : q[1] < q[2]}
      mu == TLCEval([q \in cand |-> b[<<q[1], q[2] - 1>>] - b[<<q[1], q[2]>>] - b[<<q[1] - 1, q[2] - 1>>] + b[<<q[1] - 1, q[2]>>]])
      S == {q \in cand : mu[q] # 0}
  IN [x \in {<<A.ts[q[1]], A.ts[q[2]]>> : q \in S} |-> mu[CHOOSE q \in S : <<A.ts[q[1]], A.ts[q[2]]>> = x]]
EssBars1(A, b) ==
  LET m == Len(A.ts)
      mu(i) == b[<<i, m>>] - b[<<i - 1, m>>]
      S == {i \in 1..m : mu(i) # 0}
  IN [x \in {A.ts[i] : i \in S} |-> mu(CHOOSE i \in S : A.ts[i] = x)]
\* degree 0: nodes are there from time 0
Comps(p, n, A, t) == n - RankBd1(p, {A.es[x] : x \in {y \in DOMAIN A.born : A.born[y] <= t}})
FinBars0(p, n, A) ==
  LET m == Len(A.ts)
      k == TLCEval([i \in 1..m |-> Comps(p, n, A, A.ts[i])])
      S == {i \in 2..m : k[i] # k[i - 1]}
  IN [x \in {<<0, A.ts[i]>> : i \in S} |-> LET i == CHOOSE i \in S : A.ts[i] = x[2] IN k[i - 1] - k[i]]
EssBars0(p, n, A) == LET k == Comps(p, n, A, A.ts[Len(A.ts)]) IN IF k = 0 THEN VEmpty ELSE (0 :> k)

\* first time at which the edge vector v (over positions) is a boundary; INF: never
RECURSIVE DeathR(_, _, _, _)
DeathR(p, A, v, k) ==
  IF k > Len(A.ts) THEN INF
  ELSE LET s == SelectSeq(A.bs, LAMBDA x : x[2] <= A.ts[k])
       IN IF InSpan(p, Ech(p, [i \in DOMAIN s |-> s[i][1]]), v) THEN A.ts[k] ELSE DeathR(p, A, v, k + 1)

\* ---- the same over the field with two elements, for larger inputs (GrModel: FastOK) ----
\* vectors are sets of positions
XorSet(a, b) == (a \ b) \cup (b \ a)
TimeOf(tm, e) == IF e \in DOMAIN tm THEN tm[e] ELSE INF
Max2(a, b) == IF a < b THEN b ELSE a
\* per pair (a, c) of a tail and a head the middles in order of the time of a -> b -> c
MidsOf(n, tm) ==
  LET out == TLCEval([a \in {e[1] : e \in DOMAIN tm} |-> {e[2] : e \in {x \in DOMAIN tm : x[1] = a}}])
      inn == TLCEval([a \in {e[2] : e \in DOMAIN tm} |-> {e[1] : e \in {x \in DOMAIN tm : x[2] = a}}])
  IN
  TLCEval([q \in (DOMAIN out) \X (DOMAIN inn) |->
    LET M == out[q[1]] \cap inn[q[2]] IN
    SetToSortSeq({<<Max2(tm[<<q[1], b>>], tm[<<b, q[2]>>]), b>> : b \in M}, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))])
\* spanning set <<vector, time>> of B_1: differences to the first middle, and one path once a -> c is there
FastGens(n, tm, at, mids) ==
  LET path(a, b, c) == IF a = c THEN {at[<<a, b>>], at[<<b, c>>]} ELSE {at[<<a, b>>], at[<<b, c>>], at[<<a, c>>]}
      diff(a, b, b1, c) == {at[<<a, b>>], at[<<b, c>>], at[<<a, b1>>], at[<<b1, c>>]}
      of(a, c) == LET m == mids[<<a, c>>] IN
        IF m = <<>> THEN {}
        ELSE IF a = c THEN {<<path(a, m[i][2], c), m[i][1]>> : i \in DOMAIN m}
        ELSE {<<diff(a, m[i][2], m[1][2], c), m[i][1]>> : i \in DOMAIN m \ {1}}
             \cup (IF TimeOf(tm, <<a, c>>) = INF THEN {} ELSE {<<path(a, m[1][2], c), Max2(m[1][1], tm[<<a, c>>])>>})
  IN TLCEval(SetToSortSeq(UNION {of(q[1], q[2]) : q \in DOMAIN mids}, LAMBDA x, y : x[2] < y[2]))
\* echelon form, built in order of time: greatest position -> <<vector, time of insertion>>
RECURSIVE FElim(_, _)
FElim(ech, v) == IF v = {} THEN v
                 ELSE LET m == Max(v) IN IF m \in DOMAIN ech THEN FElim(ech, XorSet(v, ech[m][1])) ELSE v
FEch(gens) == FoldLeft(LAMBDA ech, g : LET r == FElim(ech, g[1]) IN
                         IF r = {} THEN ech ELSE TLCEval((Max(r) :> <<r, g[2]>>) @@ ech), VEmpty, gens)
\* v has one expression in the echelon basis: it is a boundary from the latest time used on
RECURSIVE FDeathR(_, _, _)
FDeathR(ech, v, t) == IF v = {} THEN t
                      ELSE LET m == Max(v) IN
                           IF m \in DOMAIN ech THEN FDeathR(ech, XorSet(v, ech[m][1]), Max2(t, ech[m][2])) ELSE INF
FDeath(ech, v) == FDeathR(ech, v, 0)
\* weak components by merging labels, as the edges come
FCompsFrom(lab0, es) ==
  FoldLeft(LAMBDA lab, e : IF lab[e[1]] = lab[e[2]] THEN lab
                           ELSE TLCEval([x \in DOMAIN lab |-> IF lab[x] = lab[e[1]] THEN lab[e[2]] ELSE lab[x]]), lab0, es)
\* number of components of the graphs given by the first before[i] edges (before is monotone)
FCompsAll(n, es, before) ==
  FoldLeft(LAMBDA acc, i :
             LET lab == TLCEval(FCompsFrom(acc.lab, SubSeq(es, 1 + (IF i = 1 THEN 0 ELSE before[i - 1]), before[i])))
             IN [lab |-> lab, k |-> Append(acc.k, Cardinality({lab[x] : x \in DOMAIN lab}))],
           [lab |-> [x \in 0..(n - 1) |-> x], k |-> <<>>], [i \in 1..Len(before) |-> i]).k
FastAnalysis(n, tm, G) ==
  LET es == TLCEval(EdgeSeq(tm, G))
      at == TLCEval([e \in AllEdges(tm, G) |-> CHOOSE i \in DOMAIN es : es[i] = e])
      ts == TLCEval(SetToSortSeq(Times(tm), <))
      born == TLCEval([i \in DOMAIN es |-> BornAt(tm, G, es[i])])
      before == TLCEval([i \in DOMAIN ts |-> Cardinality({x \in DOMAIN born : born[x] <= ts[i]})])
  IN [at |-> at, es |-> es, ts |-> ts, born |-> born, before |-> before,
      comps |-> TLCEval(FCompsAll(n, es, before)),
      ech |-> TLCEval(FEch(FastGens(n, tm, at, MidsOf(n, tm))))]
\* B_1(t) restricted to the edges after the first k has as rank the number of pivots above k
\* b[j][i], i <= j
FastBetti1(n, A) ==
  LET m == Len(A.ts)
      cyc == TLCEval([i \in 1..m |-> A.before[i] - n + A.comps[i]])
      cols == TLCEval([j \in 1..m |-> {x \in DOMAIN A.ech : A.ech[x][2] = A.ts[j]}])
      \* low[j][i]: pivots up to before[i] inserted by time ts[j]
      low == TLCEval(FoldLeft(LAMBDA acc, j : Append(acc, TLCEval([i \in 1..m |->
               (IF j = 1 THEN 0 ELSE acc[j - 1][i]) + Cardinality({x \in cols[j] : x <= A.before[i]})])), <<>>, [j \in 1..m |-> j]))
  IN TLCEval([j \in 1..m |-> TLCEval([i \in 1..j |-> cyc[i] - low[j][i]])])
FastFin1(A, b) ==
  LET m == Len(A.ts)
      at(i, j) == IF i = 0 THEN 0 ELSE b[j][i]
      mu(i, j) == at(i, j - 1) - at(i, j) - at(i - 1, j - 1) + at(i - 1, j)
      S == TLCEval({q \in (1..m) \X (1..m) : q[1] < q[2] /\ mu(q[1], q[2]) # 0})
      num == TLCEval([t \in {A.ts[i] : i \in 1..m} |-> CHOOSE i \in 1..m : A.ts[i] = t])
  IN TLCEval([x \in {<<A.ts[q[1]], A.ts[q[2]]>> : q \in S} |-> mu(num[x[1]], num[x[2]])])
FastEss1(A, b) ==
  LET m == Len(A.ts)
      mu(i) == b[m][i] - (IF i = 1 THEN 0 ELSE b[m][i - 1])
      S == {i \in 1..m : mu(i) # 0}
  IN [x \in {A.ts[i] : i \in S} |-> mu(CHOOSE i \in S : A.ts[i] = x)]
FastFin0(A) ==
  LET S == {i \in 2..Len(A.ts) : A.comps[i] # A.comps[i - 1]}
  IN [x \in {<<0, A.ts[i]>> : i \in S} |-> LET i == CHOOSE i \in S : A.ts[i] = x[2] IN A.comps[i - 1] - A.comps[i]]
FastEss0(A) == LET k == A.comps[Len(A.ts)] IN IF k = 0 THEN VEmpty ELSE (0 :> k)
\* dimension of Omega_2 at time t
FastDim(n, tm, mids, t) ==
  LET ps == {q \in DOMAIN mids : mids[q] # <<>> /\ mids[q][1][1] <= t}
  IN FoldSet(LAMBDA q, s : s + Cardinality({i \in DOMAIN mids[q] : mids[q][i][1] <= t}), 0, ps)
     - Cardinality({q \in ps : q[1] # q[2] /\ TimeOf(tm, q) > t})

\* ---- shortest paths -----------------------------------------------------------------
\* W: weighted edges <<a, b, w>>, w >= 0 or INF
Cap(x) == IF x > INF THEN INF ELSE x
\* on the nodes that touch an edge, numbered 1..k; the distance from i to j is at position (i - 1) * k + j
FWStep(k, dist, x) ==
  TLCEval([q \in 1..(k * k) |->
     LET i == ((q - 1) \div k) * k
         via == Cap(dist[i + x] + dist[(x - 1) * k + (q - i)])
     IN IF via < dist[q] THEN via ELSE dist[q]])
RECURSIVE FW(_, _, _)
FW(k, dist, x) == IF x > k THEN dist ELSE FW(k, FWStep(k, dist, x), x + 1)
Shortest(n, W) ==
  LET ks == TLCEval(SetToSortSeq({w[1] : w \in W} \cup {w[2] : w \in W}, <))
      k == Len(ks)
      num == TLCEval([v \in {ks[i] : i \in 1..k} |-> CHOOSE i \in 1..k : ks[i] = v])
      pos(w) == (num[w[1]] - 1) * k + num[w[2]]
      least == TLCEval(FoldSet(LAMBDA w, acc : IF pos(w) \in DOMAIN acc /\ acc[pos(w)] <= w[3] THEN acc ELSE (pos(w) :> w[3]) @@ acc, VEmpty, W))
      d0 == TLCEval([q \in 1..(k * k) |-> IF (q - 1) \div k = (q - 1) % k THEN 0 ELSE IF q \in DOMAIN least THEN least[q] ELSE INF])
      d == TLCEval(FW(k, d0, 1))
      far == {q \in 1..(k * k) : (q - 1) \div k # (q - 1) % k /\ d[q] < INF}
  IN TLCEval([e \in {<<ks[((q - 1) \div k) + 1], ks[((q - 1) % k) + 1]>> : q \in far} |-> d[pos(e)]])

Count(seq) == LET S == {seq[i] : i \in DOMAIN seq} IN [x \in S |-> Cardinality({i \in DOMAIN seq : seq[i] = x})]
================================================================================
