-------------------------------- MODULE Sparse ---------------------------------
(* Sparse linear algebra over Fld: a vector is a function from a finite set of  *)
(* integers (rows) to non-zero field elements.  Terms are pairs <<coef, row>>.  *)
EXTENDS Fld, TLC, SequencesExt, FiniteSetsExt

VEmpty == [x \in {} |-> 0]

VGet(p, v, r) == IF r \in DOMAIN v THEN v[r] ELSE FZero(p)

VRestrict(v, S) == TLCEval([x \in S |-> v[x]])

VClean(p, v) == LET S == {x \in DOMAIN v : v[x] # FZero(p)} IN TLCEval([x \in S |-> v[x]])

VAdd(p, u, v) ==
  IF DOMAIN u = {} THEN v ELSE IF DOMAIN v = {} THEN u ELSE
  LET s == TLCEval([x \in DOMAIN u \cup DOMAIN v |->
              IF x \notin DOMAIN u THEN v[x]
              ELSE IF x \notin DOMAIN v THEN u[x]
              ELSE FAdd(p, u[x], v[x])])
  IN  VClean(p, s)

VScale(p, c, v) ==
  IF c = FZero(p) THEN VEmpty ELSE TLCEval([x \in DOMAIN v |-> FMul(p, c, v[x])])

VAxpy(p, u, c, v) == VAdd(p, u, VScale(p, c, v))       \* u + c v

VNeg(p, v) == TLCEval([x \in DOMAIN v |-> FNeg(p, v[x])])

\* The sum over a sequence of terms <<coef, row>> (divide and conquer: shallow recursion)
RECURSIVE SumTermsR(_, _, _, _)
SumTermsR(p, t, lo, hi) ==
  IF lo > hi THEN VEmpty
  ELSE IF lo = hi THEN VClean(p, (t[lo][2] :> t[lo][1]))
  ELSE LET mid == (lo + hi) \div 2
       IN  VAdd(p, SumTermsR(p, t, lo, mid), SumTermsR(p, t, mid + 1, hi))
SumTerms(p, t) == SumTermsR(p, t, 1, Len(t))

\* Linear combination  sum_r v[r] * M[r]  where M is a function row -> vector
\* (S = rows of v still to be added; chunked recursion over a sequence of rows)
RECURSIVE LinCombR(_, _, _, _, _, _)
LinCombR(p, M, v, rows, lo, hi) ==
  IF lo > hi THEN VEmpty
  ELSE IF lo = hi THEN VScale(p, v[rows[lo]], M[rows[lo]])
  ELSE LET mid == (lo + hi) \div 2
       IN  VAdd(p, LinCombR(p, M, v, rows, lo, mid), LinCombR(p, M, v, rows, mid + 1, hi))

LinComb(p, M, v) == LET rows == SetToSeq(DOMAIN v) IN LinCombR(p, M, v, rows, 1, Len(rows))

MaxOf(S) == Max(S)
MinOf(S) == Min(S)

\* Pivot with respect to a rank function on the rows: rk[r] distinct integers.
PivotRk(v, rk) ==                      \* v non-empty
  CHOOSE x \in DOMAIN v : \A y \in DOMAIN v : rk[y] <= rk[x]

\* ---- rank by elimination -------------------------------------------------
\* red = sequence of vectors with distinct greatest rows; insert v
RECURSIVE Elim(_, _, _)
\* ech: function pivot row -> vector with that greatest row
Elim(p, ech, v) ==
  IF DOMAIN v = {} THEN v
  ELSE LET m == MaxOf(DOMAIN v)
       IN  IF m \notin DOMAIN ech THEN v
           ELSE Elim(p, ech, VAxpy(p, v, FNeg(p, FMul(p, v[m], FInv(p, ech[m][m]))), ech[m]))

EchStep(p, ech, v) ==
  LET r == Elim(p, ech, v)
  IN  IF DOMAIN r = {} THEN ech ELSE TLCEval((MaxOf(DOMAIN r) :> r) @@ ech)
Ech(p, vs) == FoldLeft(LAMBDA e, v : EchStep(p, e, v), VEmpty, vs)        \* vs: sequence of vectors
Rank(p, vs) == Cardinality(DOMAIN Ech(p, vs))
InSpan(p, ech, v) == DOMAIN Elim(p, ech, v) = {}
================================================================================
