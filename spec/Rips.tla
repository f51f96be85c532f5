---------------------------------- MODULE Rips ----------------------------------
(* C12-C15.  Vietoris-Rips complexes of a finite distance matrix, from the       *)
(* definition.  A simplex is the increasing sequence of its vertices (0..n-1); d *)
(* is the matrix as a sequence of rows of integers (distance * scale).           *)
EXTENDS Sparse

\* all simplices of dimension k (RipsModel: Counting)
RECURSIVE IncSeqs(_, _)
IncSeqs(n, m) == IF m = 0 THEN {<<>>}
                 ELSE UNION {{Append(s, v) : v \in (IF s = <<>> THEN 0 ELSE s[Len(s)] + 1)..(n - 1)} : s \in IncSeqs(n, m - 1)}
Simplices(n, k) == IF k >= n THEN {} ELSE IncSeqs(n, k + 1)
IsSimplex(n, s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 0..(n - 1) /\ (i > 1 => s[i - 1] < s[i])
Dim(s) == Len(s) - 1

Dist(d, v, w) == d[v + 1][w + 1]
Diam(d, s) == Max({0} \cup {Dist(d, s[i], s[j]) : <<i, j>> \in {q \in (1..Len(s)) \X (1..Len(s)) : q[1] < q[2]}})

\* sign by position (1-based)
Sgn(p, i) == IF i % 2 = 1 THEN FOne(p) ELSE FNeg(p, FOne(p))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* terms <<coefficient, simplex>>
Boundary(p, s) == IF Len(s) = 1 THEN {} ELSE {<<Sgn(p, i), Without(s, i)>> : i \in DOMAIN s}
Insert(s, v) == LET k == Cardinality({i \in DOMAIN s : s[i] < v})
                IN <<k + 1, SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))>>
Coboundary(p, n, s) ==
  {LET q == Insert(s, v) IN <<Sgn(p, q[1]), q[2]>> : v \in (0..(n - 1)) \ {s[i] : i \in DOMAIN s}}

\* ---- the barcode, from ranks -------------------------------------------------------
\* any total order of the simplices of one dimension will do for linear algebra
RECURSIVE Colex(_, _, _)
Colex(s, t, i) == IF i = 0 THEN FALSE ELSE s[i] < t[i] \/ (s[i] = t[i] /\ Colex(s, t, i - 1))
ByDiam(d, n, k) ==
  LET S == Simplices(n, k)
      dm == TLCEval([s \in S |-> Diam(d, s)])
  IN SetToSortSeq(S, LAMBDA s, t : dm[s] < dm[t] \/ (dm[s] = dm[t] /\ Colex(s, t, Len(s))))
\* faces sq, cofaces tq in order of diameter; the columns as vectors over the positions in sq
Cols(p, sq, tq) ==
  LET at == TLCEval([s \in {sq[i] : i \in DOMAIN sq} |-> CHOOSE i \in DOMAIN sq : sq[i] = s])
  IN [j \in DOMAIN tq |-> LET B == Boundary(p, tq[j])
                          IN [r \in {at[b[2]] : b \in B} |-> (CHOOSE b \in B : at[b[2]] = r)[1]]]
\* places k of the columns that are independent of the columns before them, rows below lo ignored
IndepStep(p, cs, lo, o, k) ==
  LET r == Elim(p, o.ech, VRestrict(cs[k], {x \in DOMAIN cs[k] : x >= lo}))
  IN IF DOMAIN r = {} THEN o
     ELSE TLCEval([ech |-> (MaxOf(DOMAIN r) :> r) @@ o.ech, acc |-> o.acc \cup {k}])
Indep(p, cs, lo) == FoldLeftDomain(LAMBDA o, k : IndepStep(p, cs, lo, o, k), [ech |-> VEmpty, acc |-> {}], cs).acc
\* number of bars of degree deg by (birth, death), birth <= death < infinity:
\* rank of the block rows >= b, columns <= e, by inclusion and exclusion
Bars(p, d, n, deg) ==
  LET sq == ByDiam(d, n, deg)
      tq == ByDiam(d, n, deg + 1)
      cs == TLCEval(Cols(p, sq, tq))
      bd == TLCEval([i \in DOMAIN sq |-> Diam(d, sq[i])])
      ed == TLCEval([j \in DOMAIN tq |-> Diam(d, tq[j])])
      bs == SetToSortSeq({bd[i] : i \in DOMAIN sq}, <)
      es == {ed[j] : j \in DOMAIN tq}
      first == [m \in DOMAIN bs |-> Min({i \in DOMAIN sq : bd[i] = bs[m]})]
      ind == TLCEval([m \in 1..(Len(bs) + 1) |-> IF m > Len(bs) THEN {} ELSE Indep(p, cs, first[m])])
      cnt(m, e) == Cardinality({k \in ind[m] : ed[k] = e})
      mult == TLCEval([q \in {<<m, e>> : m \in DOMAIN bs, e \in es} |-> cnt(q[1], q[2]) - cnt(q[1] + 1, q[2])])
      full == {q \in DOMAIN mult : mult[q] # 0}
  IN [q \in {<<bs[x[1]], x[2]>> : x \in full} |-> mult[CHOOSE x \in full : <<bs[x[1]], x[2]>> = q]]
\* degree 0 alone, for many points: bars die at the edges of a minimum spanning tree (RipsModel: Spanning)
PrimStep(d, o) ==
  LET v == CHOOSE x \in DOMAIN o.near : \A y \in DOMAIN o.near : o.near[x] <= o.near[y]
  IN TLCEval([near |-> [x \in DOMAIN o.near \ {v} |-> IF d[x + 1][v + 1] < o.near[x] THEN d[x + 1][v + 1] ELSE o.near[x]],
              num |-> (o.near[v] :> 1 + (IF o.near[v] \in DOMAIN o.num THEN o.num[o.near[v]] ELSE 0)) @@ o.num])
Bars0(d, n) ==
  LET o == FoldLeftDomain(LAMBDA a, i : PrimStep(d, a),
                          [near |-> [x \in 1..(n - 1) |-> d[x + 1][1]], num |-> [x \in {} |-> 0]], [i \in 1..(n - 1) |-> i])
  IN [q \in {<<0, e>> : e \in DOMAIN o.num} |-> o.num[q[2]]]
BarsOf(p, d, n, deg) == IF deg = 0 /\ n > 12 THEN Bars0(d, n) ELSE Bars(p, d, n, deg)
LongBars(B) == [q \in {x \in DOMAIN B : x[1] < x[2]} |-> B[q]]
\* number of bars of degree deg that never die, by birth (complete complex)
SumDom(f, S) == FoldSet(LAMBDA x, a : f[x] + a, 0, S)
EssBars(p, d, n, deg) ==
  LET B == Bars(p, d, n, deg)
      A == IF deg = 0 THEN [x \in {} |-> 0] ELSE Bars(p, d, n, deg - 1)
      S == Simplices(n, deg)
      vals == {Diam(d, s) : s \in S}
      num == [v \in vals |-> Cardinality({s \in S : Diam(d, s) = v})
                - SumDom(B, {q \in DOMAIN B : q[1] = v}) - SumDom(A, {q \in DOMAIN A : q[2] = v})]
  IN [v \in {x \in vals : num[x] # 0} |-> num[v]]
OnlyComponent(n) == IF n = 0 THEN [x \in {} |-> 0] ELSE (0 :> 1)

\* the multiset of a sequence, as a counting function
Count(seq) == LET S == {seq[i] : i \in DOMAIN seq} IN [x \in S |-> Cardinality({i \in DOMAIN seq : seq[i] = x})]
================================================================================
