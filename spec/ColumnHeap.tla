------------------------------ MODULE ColumnHeap -------------------------------
(* C02.  A column heap holds a multiset of terms; it represents the formal sum  *)
(* of these terms.  A term is a coefficient at a key <<filtration, row>>; keys  *)
(* are ordered lexicographically.  Same row => same filtration (precondition).  *)
(*                                                                              *)
(* bags[h] is the multiset held by heap h: a function  key -> (coef -> count).  *)
EXTENDS Sparse

VARIABLES p, bags

hvars == <<p, bags>>

Key(r, f) == <<f, r>>
KLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
KMax(K) == FoldSet(LAMBDA k, m : IF KLess(m, k) THEN k ELSE m, CHOOSE k \in K : TRUE, K)

NoTerms == [k \in {} |-> 0]

TermsAdd(b, k, c) ==
  LET old == IF k \in DOMAIN b THEN b[k] ELSE [x \in {} |-> 0]
      cnt == IF c \in DOMAIN old THEN old[c] + 1 ELSE 1
  IN  (k :> ((c :> cnt) @@ old)) @@ b

RECURSIVE TermsAddAll(_, _, _)
TermsAddAll(b, ts, i) ==            \* ts: sequence of <<coef, row, filtration>>
  IF i > Len(ts) THEN b
  ELSE TermsAddAll(TermsAdd(b, Key(ts[i][2], ts[i][3]), ts[i][1]), ts, i + 1)

\* Total coefficient at a key
RECURSIVE TotalR(_, _, _)
TotalR(q, m, S) ==
  IF S = {} THEN FZero(q)
  ELSE LET c == CHOOSE c \in S : TRUE
       IN  FAdd(q, FMul(q, FInt(q, m[c]), c), TotalR(q, m, S \ {c}))
Total(q, b, k) == TotalR(q, b[k], DOMAIN b[k])

Live(q, b) == {k \in DOMAIN b : Total(q, b, k) # FZero(q)}
IsZero(q, b) == Live(q, b) = {}
PivKey(q, b) == KMax(Live(q, b))
\* entries are reported as <<coef, row, filtration>>
PivEntry(q, b) == LET k == PivKey(q, b) IN <<Total(q, b, k), k[2], k[1]>>

Lower(b, k) == [j \in {x \in DOMAIN b : KLess(x, k)} |-> b[j]]
Popped(q, b) == IF IsZero(q, b) THEN NoTerms ELSE Lower(b, PivKey(q, b))
PivOpt(q, b) == IF IsZero(q, b) THEN <<>> ELSE <<PivEntry(q, b)>>

\* What peek may show: the pivot, or a term lying on top of the heap
PeekOpts(q, b) ==
  {PivOpt(q, b)} \cup
  (IF DOMAIN b = {} THEN {} ELSE LET k == KMax(DOMAIN b) IN {<<<<c, k[2], k[1]>>>> : c \in DOMAIN b[k]})

\* n pops (fewer if the sum is exhausted): <<reported entries, remaining bag>>
RECURSIVE DrainN(_, _, _, _)
DrainN(q, b, n, acc) ==
  IF n = 0 THEN <<acc, b>>
  ELSE IF IsZero(q, b) THEN <<acc, NoTerms>>
  ELSE DrainN(q, Popped(q, b), n - 1, Append(acc, PivEntry(q, b)))

\* the same, with all totals computed once (HeapModel: DrainFastOK)
DrainFast(q, b, n) ==
  LET tot  == TLCEval([k \in DOMAIN b |-> Total(q, b, k)])
      live == TLCEval(SetToSortSeq({k \in DOMAIN b : tot[k] # FZero(q)}, LAMBDA x, y : KLess(y, x)))
      m    == IF n < Len(live) THEN n ELSE Len(live)
  IN  <<[i \in 1..m |-> <<tot[live[i]], live[i][2], live[i][1]>>],
        IF n = 0 THEN b ELSE IF n > Len(live) THEN NoTerms ELSE TLCEval(Lower(b, live[n]))>>

Size(b) == LET S == DOMAIN b IN FoldSet(LAMBDA k, a : a + FoldSet(LAMBDA c, x : x + b[k][c], 0, DOMAIN b[k]), 0, S)

\* ---- actions (res = what the caller sees) ------------------------------------
Put(h, b) == bags' = [bags EXCEPT ![h] = b] /\ UNCHANGED p

AddTerms(h, ts)    == Put(h, TermsAddAll(bags[h], ts, 1))
Scaled(q, ts, c)   == [i \in DOMAIN ts |-> <<FMul(q, ts[i][1], c), ts[i][2], ts[i][3]>>]
AddScaled(h, ts, c) == AddTerms(h, Scaled(p, ts, c))
Pop(h, res)        == res = PivOpt(p, bags[h]) /\ Put(h, Popped(p, bags[h]))
ClonePivot(h, res) == /\ res = PivOpt(p, bags[h])
                      /\ Put(h, IF res = <<>> THEN NoTerms
                                ELSE TermsAdd(Popped(p, bags[h]), PivKey(p, bags[h]), res[1][1]))
Peek(h, res)       == res \in PeekOpts(p, bags[h]) /\ UNCHANGED hvars
Drain(h, n, res)   == \E d \in {DrainFast(p, bags[h], n)} : res = d[1] /\ Put(h, d[2])
ToVec(h, res)      == Drain(h, Size(bags[h]) + 1, res)
Copy(h, g)         == Put(h, bags[g])
================================================================================
