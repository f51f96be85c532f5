-------------------------------- MODULE GrModel ---------------------------------
(* Design model of Gr: every filtered digraph on N nodes with edge times in Vals *)
(* (or no time) and every grounding in a given family.  The spanning 2-chains    *)
(* are path homology's Omega_2 (a kernel), the primary-bridge cells used by the  *)
(* code are a basis of it at every time, and bars are non-negative.              *)
EXTENDS Gr, Json
CONSTANTS N, Vals, P, Metric, Free
VARIABLES tm, todo, G
None == -1
Pairs == IF Free = {} THEN {q \in (0..(N - 1)) \X (0..(N - 1)) : q[1] # q[2]} ELSE {<<x \div 10, x % 10>> : x \in Free}
Lex(q) == q[1] * N + q[2]
\* times are chosen one edge after the other; in a metric model they are weights and then shortest paths
Init == tm = VEmpty /\ todo = Pairs /\ G = {}
Pick == /\ todo # {}
        /\ LET e == CHOOSE q \in todo : \A x \in todo : Lex(q) <= Lex(x) IN
           /\ todo' = todo \ {e}
           /\ \/ tm' = tm /\ G' = G
              \/ Metric /\ tm' = tm /\ G' = G \cup {e}                \* infinite weight
              \/ \E v \in Vals : tm' = (e :> v) @@ tm /\ \E g \in (IF Metric THEN {TRUE} ELSE {TRUE, FALSE}) : G' = IF g THEN G \cup {e} ELSE G
Next == Pick
Spec == Init /\ [][Next]_<<tm, todo, G>>
Full == todo = {}
ft == IF Metric THEN Shortest(N, {<<e[1], e[2], tm[e]>> : e \in DOMAIN tm}) ELSE tm

Code(x) == x[1] * N * N + x[2] * N + x[3]
IntVec(u) == [k \in {Code(x) : x \in DOMAIN u} |-> u[CHOOSE x \in DOMAIN u : Code(x) = k]]
RankOf(U) == LET s == SetToSeq(U) IN Rank(P, [i \in DOMAIN s |-> IntVec(s[i])])
\* kernel of (2-paths -> non-edges), by rank
Kernel(H) == LET T == SetToSeq(TwoPaths(N, H))
                 v(x) == LET b == Path2(P, x) IN [k \in {Lex(e) : e \in DOMAIN b \ H} |-> b[CHOOSE e \in DOMAIN b : Lex(e) = k]]
             IN Len(T) - Rank(P, [i \in DOMAIN T |-> v(T[i])])
OmegaOK == Full => \A t \in Times(ft) :
  LET H == EdgesAt(ft, t)
      S == SpanOmega(P, N, H)
  IN /\ \A u \in S : InOmega(P, N, H, u)
     /\ RankOf(S) = Kernel(H) /\ Kernel(H) = DimOmega(N, H) /\ Cardinality(S) = DimOmega(N, H)

\* ---- the cells used by the code -------------------------------------------------------
Time(f, e) == IF e \in DOMAIN f THEN f[e] ELSE INF
PathTime(f, a, b, c) == Max({Time(f, <<a, b>>), Time(f, <<b, c>>)})
Mids(f, a, c) == {b \in 0..(N - 1) : PathTime(f, a, b, c) < INF}
Primary(f, a, c) == CHOOSE b \in Mids(f, a, c) :
                      \A x \in Mids(f, a, c) : PathTime(f, a, b, c) < PathTime(f, a, x, c)
                                               \/ (PathTime(f, a, b, c) = PathTime(f, a, x, c) /\ b <= x)
\* <<chain, time>>
CellsOf(f, a, c) ==
  LET M == Mids(f, a, c)
      one(b) == (<<a, b, c>> :> FOne(P))
      ac == Time(f, <<a, c>>)
  IN IF M = {} THEN {}
     ELSE IF a = c THEN {<<one(b), PathTime(f, a, b, c)>> : b \in M}
     ELSE LET pb == Primary(f, a, c)
              bridged == PathTime(f, a, pb, c) < ac
          IN {<<one(b), PathTime(f, a, b, c)>> : b \in {x \in M : PathTime(f, a, x, c) >= ac}}
             \cup (IF bridged /\ ac < INF THEN {<<one(pb), ac>>} ELSE {})
             \cup {<<(<<a, b, c>> :> FOne(P)) @@ (<<a, pb, c>> :> FNeg(P, FOne(P))), PathTime(f, a, b, c)>> :
                      b \in {x \in M \ {pb} : PathTime(f, a, x, c) < ac}}
Cells(f) == UNION {CellsOf(f, q[1], q[2]) : q \in (0..(N - 1)) \X (0..(N - 1))}
CellsOK == Full => LET C == TLCEval(Cells(ft)) IN
  /\ RankOf({x[1] : x \in C}) = Cardinality(C)
  /\ \A t \in Times(ft) : LET now == {x \in C : x[2] <= t} IN
       /\ \A x \in now : InOmega(P, N, EdgesAt(ft, t), x[1])
       /\ Cardinality(now) = DimOmega(N, EdgesAt(ft, t))
ChainComplex == Full => \A x \in Cells(ft) : DOMAIN FoldSet(LAMBDA e, acc : VAxpy(P, acc, Bd2(P, x[1])[e], Bd1(P, e)), VEmpty, DOMAIN Bd2(P, x[1])) = {}

\* ---- barcodes --------------------------------------------------------------------
BarsOK == Full =>
  LET A == TLCEval(Analysis(P, N, ft, G))
      b == Betti1(P, N, A)
      f1 == FinBars1(A, b)
      e1 == EssBars1(A, b)
      m == Len(A.ts)
      alive(t) == FoldSet(LAMBDA q, s : s + f1[q], 0, {q \in DOMAIN f1 : q[1] <= t /\ t < q[2]})
                  + FoldSet(LAMBDA x, s : s + e1[x], 0, {x \in DOMAIN e1 : x <= t})
  IN /\ \A q \in DOMAIN f1 : f1[q] > 0 /\ q[1] < q[2]
     /\ \A x \in DOMAIN e1 : e1[x] > 0
     /\ \A i \in 1..m : alive(A.ts[i]) = b[<<i, i>>]
     /\ FinBars0(P, N, A) = VEmpty \/ ~Metric
     /\ Metric => EssBars0(P, N, A) = (0 :> N - RankBd1(P, G))
\* the fast evaluation over two elements agrees with the definitions
FastOK == Full /\ P = 2 =>
  LET A == TLCEval(Analysis(P, N, ft, G))
      F == TLCEval(FastAnalysis(N, ft, G))
      b == Betti1(P, N, A)
      mids == MidsOf(N, ft)
      set(v) == DOMAIN v
  IN /\ F.es = A.es /\ F.at = A.at /\ F.ts = A.ts /\ F.born = A.born
     /\ \E fb \in {FastBetti1(N, F)} :
          /\ \A j \in DOMAIN A.ts : \A i \in 1..j : fb[j][i] = b[<<i, j>>]
          /\ FastFin1(F, fb) = FinBars1(A, b) /\ FastEss1(F, fb) = EssBars1(A, b)
     /\ FastFin0(F) = FinBars0(P, N, A) /\ FastEss0(F) = EssBars0(P, N, A)
     /\ \A t \in Times(ft) : FastDim(N, ft, mids, t) = DimOmega(N, EdgesAt(ft, t))
     /\ \A S \in {{A.at[e] : e \in {<<0, 1>>, <<1, 2>>, <<2, 0>>} \cap DOMAIN A.at}, {A.at[e] : e \in {<<0, 1>>, <<1, 2>>, <<0, 2>>} \cap DOMAIN A.at},
                 {A.at[e] : e \in {<<0, 1>>, <<1, 3>>, <<0, 2>>, <<2, 3>>} \cap DOMAIN A.at}, {A.at[e] : e \in {<<0, 1>>, <<1, 0>>} \cap DOMAIN A.at}} :
          FDeath(F.ech, S) = (IF S = {} THEN 0 ELSE DeathR(P, A, [r \in S |-> 1], 1))
================================================================================
