------------------------------ MODULE RedMachine --------------------------------
(* C07-C10.  R = DV reductions, abstractly.                                      *)
(* Rows are the integers 1..n in the order of (filtration value, row index), so  *)
(* the pivot of a vector is its greatest row.  Columns are named by rows too     *)
(* (square matrix); each column to be reduced has a place in the column order.   *)
(*   D     column -> vector, for every column that may be used                   *)
(*   cols  the columns to reduce                                                 *)
(*   ord   column -> <<group, place>>: column i is before j iff same group (the  *)
(*         whole basis, or a dimension) and smaller place                        *)
(*   V     reduced columns so far: column -> vector                              *)
(*   lows  pivot row of R = DV -> column;  zeros: columns with R = 0             *)
(* The machine may take any reduced column it likes, in any order: algorithms    *)
(* refine it.  What it computes, the pairing {(pivot, column)}, is unique        *)
(* (RankPairs, checked in RedModel).                                             *)
EXTENDS Sparse
VARIABLES p, D, cols, ord, V, lows, zeros
rvars == <<p, D, cols, ord, V, lows, zeros>>

Before(i, j) == i \in DOMAIN ord /\ ord[i][1] = ord[j][1] /\ ord[i][2] < ord[j][2]

Pivot(r) == MaxOf(DOMAIN r)
RCol(v) == LinComb(p, D, v)

\* v is an admissible column j of V
VColOK(j, v) == /\ j \in DOMAIN v
                /\ \A r \in DOMAIN v : r = j \/ Before(r, j)

\* one more column
TakeCol(j, v) ==
  /\ j \in cols \ DOMAIN V
  /\ VColOK(j, v)
  /\ V' = (j :> v) @@ V
  /\ \E r \in {RCol(v)} :
        IF DOMAIN r = {}
        THEN zeros' = zeros \cup {j} /\ UNCHANGED lows
        ELSE /\ Pivot(r) \notin DOMAIN lows
             /\ lows' = (Pivot(r) :> j) @@ lows /\ UNCHANGED zeros
  /\ UNCHANGED <<p, D, cols, ord>>

\* two columns at once (what clearing does: a death and its birth)
TakeTwo(j, v, i, w) ==
  /\ i # j /\ {i, j} \subseteq cols \ DOMAIN V
  /\ VColOK(j, v) /\ VColOK(i, w)
  /\ V' = (i :> w) @@ (j :> v) @@ V
  /\ \E r \in {RCol(v)} :
        /\ DOMAIN r # {} /\ DOMAIN RCol(w) = {}
        /\ Pivot(r) \notin DOMAIN lows
        /\ lows' = (Pivot(r) :> j) @@ lows /\ zeros' = zeros \cup {i}
  /\ UNCHANGED <<p, D, cols, ord>>

Done == DOMAIN V = cols
\* pairs (birth, death) and essential columns
Pairs == {<<r, lows[r]>> : r \in DOMAIN lows}
Essential == zeros \ DOMAIN lows
\* in a complex reduced completely, births are columns that vanish
BirthsVanish == DOMAIN lows \cap cols \subseteq zeros

\* ---- the pairing found by elimination in column order ------------------------------
\* (used where only the diagram is of interest; equal to RankPairs, checked in StdAlgo, ClrAlgo)
OwnStep(o, j) ==
  LET r == Elim(p, o.ech, D[j])
  IN IF DOMAIN r = {} THEN [o EXCEPT !.zeros = @ \cup {j}]
     ELSE LET i == Pivot(r)
          IN TLCEval([o EXCEPT !.ech = (i :> r) @@ @, !.lows = (i :> j) @@ @])
ColSeq == SetToSortSeq(cols, LAMBDA x, y : ord[x][1] < ord[y][1] \/ (ord[x][1] = ord[y][1] /\ ord[x][2] < ord[y][2]))
Own == FoldLeft(LAMBDA o, j : TLCEval(OwnStep(o, j)), [ech |-> VEmpty, lows |-> VEmpty, zeros |-> {}], ColSeq)
OwnPairs(o) == {<<r, o.lows[r]>> : r \in DOMAIN o.lows}
OwnEss(o) == o.zeros \ DOMAIN o.lows

\* ---- the pairing determined by ranks ---------------------------------------------
\* rank of the rows >= i of the columns of j's group up to place k
LowRank(i, g, k) ==
  LET cs == {x \in cols : ord[x][1] = g /\ ord[x][2] <= k}
      s  == SetToSeq(cs)
  IN Rank(p, [m \in DOMAIN s |-> VRestrict(D[s[m]], {r \in DOMAIN D[s[m]] : r >= i})])
IsPair(i, j) ==
  LET g == ord[j][1]
      k == ord[j][2]
  IN LowRank(i, g, k) - LowRank(i + 1, g, k) + LowRank(i + 1, g, k - 1) - LowRank(i, g, k - 1) = 1
AllRows == UNION {DOMAIN D[j] : j \in cols}
RankPairs == {<<i, j>> \in AllRows \X cols : IsPair(i, j)}
================================================================================
