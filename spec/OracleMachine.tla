----------------------------- MODULE OracleMachine ------------------------------
(* C03 C04 C06.  Matrix oracles as values.  A register holds a view of a matrix: *)
(*   cols   column id -> vector (row id -> non-zero coefficient), what a column  *)
(*          denotes as a linear combination                                      *)
(*   known  whether the listing of terms is fixed; then terms[col] is the        *)
(*          sequence of terms <<coef, row>> (as a multiset)                      *)
(*   cons   the listing is consolidated: strictly decreasing rows                *)
(*   rows   the row basis;  hasF, filt: the row filtration                       *)
(*   may    column -> rows its listing may mention (cancelled terms included)     *)
(*   src    column -> requests <<stored matrix, column>> that listing it may need *)
(*   hasB, basis: the ordered column basis;  hasD, dims: its sub-bases           *)
(* Ids are integers ordered as the index types are.  Reversing the order of an   *)
(* index or filtration type is modelled by negation (Reverse(x) <-> -x).         *)
(* Every adaptor and combinator of phlite is one action: it appends the view.    *)
EXTENDS Sparse

VARIABLES p, regs
ovars == <<p, regs>>

NegSeq(s) == [i \in 1..Len(s) |-> -s[Len(s) + 1 - i]]       \* reversed order
NegSet(S) == {-x : x \in S}
NegVec(v) == [x \in NegSet(DOMAIN v) |-> v[-x]]
NegTerms(t) == [i \in DOMAIN t |-> <<t[i][1], -t[i][2]>>]

Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

NoVecs == [x \in {} |-> 0]
Default == [cols |-> NoVecs, known |-> FALSE, terms |-> NoVecs, cons |-> FALSE, rows |-> {}, may |-> NoVecs, src |-> NoVecs,
            hasF |-> FALSE, filt |-> NoVecs, hasB |-> FALSE, basis |-> <<>>, hasD |-> FALSE, dims |-> <<>>]

\* ---- the views -----------------------------------------------------------------
\* terms: function col -> sequence of terms; std: standard basis attached (VecVecMatrix)
VStore(k, terms, rows, std) ==
  [Default EXCEPT !.cols = [x \in DOMAIN terms |-> SumTerms(p, terms[x])],
                  !.known = TRUE, !.terms = terms, !.rows = rows,
                  !.may = [x \in DOMAIN terms |-> {terms[x][i][2] : i \in DOMAIN terms[x]}],
                  !.src = [x \in DOMAIN terms |-> {<<k, x>>}],
                  !.hasB = std,
                  !.basis = IF std THEN [i \in 1..Cardinality(DOMAIN terms) |-> i - 1] ELSE <<>>]

VFilt(m, f)   == [m EXCEPT !.hasF = TRUE, !.filt = f]
VTrivial(m)   == VFilt(m, [r \in m.rows |-> 0])
VBasis(m, b)  == [m EXCEPT !.hasB = TRUE, !.basis = b, !.hasD = FALSE, !.dims = <<>>]
VSplit(m, ds) == [m EXCEPT !.hasB = TRUE, !.basis = Concat(ds), !.hasD = TRUE, !.dims = ds]
VBare(m)      == [m EXCEPT !.hasF = FALSE, !.filt = NoVecs, !.hasB = FALSE, !.basis = <<>>, !.hasD = FALSE, !.dims = <<>>]
VCons(m)      == [m EXCEPT !.known = FALSE, !.terms = NoVecs, !.cons = TRUE]
VSub(m, d)    == [m EXCEPT !.basis = m.dims[d], !.hasD = FALSE, !.dims = <<>>]
VIndex(m)     == [m EXCEPT !.cols = [i \in 0..(Len(m.basis) - 1) |-> m.cols[m.basis[i + 1]]],
                           !.terms = IF m.known THEN [i \in 0..(Len(m.basis) - 1) |-> m.terms[m.basis[i + 1]]] ELSE NoVecs,
                           !.may = [i \in 0..(Len(m.basis) - 1) |-> m.may[m.basis[i + 1]]],
                           !.src = [i \in 0..(Len(m.basis) - 1) |-> m.src[m.basis[i + 1]]],
                           !.hasB = FALSE, !.basis = <<>>, !.hasD = FALSE, !.dims = <<>>]
VRev(m) ==
  [m EXCEPT !.cols  = [x \in NegSet(DOMAIN m.cols) |-> NegVec(m.cols[-x])],
            !.terms = IF m.known THEN [x \in NegSet(DOMAIN m.terms) |-> NegTerms(m.terms[-x])] ELSE NoVecs,
            !.cons  = FALSE,
            !.rows  = NegSet(m.rows),
            !.may   = [x \in NegSet(DOMAIN m.cols) |-> NegSet(m.may[-x])],
            !.src   = [x \in NegSet(DOMAIN m.cols) |-> m.src[-x]],
            !.filt  = IF m.hasF THEN [r \in NegSet(m.rows) |-> -m.filt[-r]] ELSE NoVecs,
            !.basis = NegSeq(m.basis),
            !.dims  = [d \in DOMAIN m.dims |-> NegSeq(m.dims[d])]]
VProd(a, b) ==
  [Default EXCEPT !.cols = [x \in DOMAIN b.cols |-> LinComb(p, a.cols, b.cols[x])],
                  !.may = [x \in DOMAIN b.cols |-> UNION {a.may[r] : r \in b.may[x]}],
                  !.src = [x \in DOMAIN b.cols |-> b.src[x] \cup UNION {a.src[r] : r \in b.may[x]}],
                  !.rows = a.rows, !.hasF = a.hasF, !.filt = a.filt,
                  !.hasB = b.hasB, !.basis = b.basis, !.hasD = b.hasD, !.dims = b.dims]
VSum(a, b) ==
  [Default EXCEPT !.cols = [x \in DOMAIN a.cols |-> VAdd(p, a.cols[x], b.cols[x])],
                  !.may = [x \in DOMAIN a.cols |-> a.may[x] \cup b.may[x]],
                  !.src = [x \in DOMAIN a.cols |-> a.src[x] \cup b.src[x]],
                  !.rows = a.rows \cup b.rows]

\* ---- when an operation is applicable --------------------------------------------
Occ(m) == UNION {DOMAIN m.cols[x] : x \in DOMAIN m.cols}
\* rows that may be listed (terms may cancel, so all rows of the view must be columns on the left)
CanProd(a, b) == b.rows \subseteq DOMAIN a.cols
CanSum(a, b)  == DOMAIN a.cols = DOMAIN b.cols
CanEq(a, b, x) == x \in DOMAIN a.cols /\ x \in DOMAIN b.cols
CanSub(m, d)  == m.hasD /\ d \in DOMAIN m.dims
CanIndex(m)   == m.hasB /\ Rng(m.basis) \subseteq DOMAIN m.cols

Push(m) == regs' = Append(regs, TLCEval(m)) /\ UNCHANGED p

\* ---- observations ----------------------------------------------------------------
TermBag(t) == [x \in Rng(t) |-> Cardinality({i \in DOMAIN t : t[i] = x})]
Decreasing(t) == \A i \in 1..(Len(t) - 1) : t[i][2] > t[i + 1][2]
NonZeroTerms(t) == \A i \in DOMAIN t : FIsNZ(p, t[i][1])

\* the listing t of column x is one the view allows
ListingOK(m, x, t) ==
  /\ NonZeroTerms(t)
  /\ SumTerms(p, t) = m.cols[x]
  /\ \A i \in DOMAIN t : t[i][2] \in m.rows
  /\ m.known => TermBag(t) = TermBag(m.terms[x])
  /\ m.cons  => Decreasing(t)

Strip(tf) == [i \in DOMAIN tf |-> <<tf[i][1], tf[i][2]>>]
\* filtered listing tf (entries <<coef,row,filtration>>) next to the plain listing t
FilteredOK(m, x, t, tf) ==
  /\ TermBag(Strip(tf)) = TermBag(t)
  /\ \A i \in DOMAIN tf : tf[i][3] = m.filt[tf[i][2]]
\* drained heap of the column
HeapOK(m, x, tf) ==
  /\ \A i \in 1..(Len(tf) - 1) :
       \/ tf[i][3] > tf[i + 1][3]
       \/ tf[i][3] = tf[i + 1][3] /\ tf[i][2] > tf[i + 1][2]
  /\ \A i \in DOMAIN tf : tf[i][3] = m.filt[tf[i][2]]
  /\ Cardinality(DOMAIN m.cols[x]) = Len(tf)
  /\ \A i \in DOMAIN tf : tf[i][2] \in DOMAIN m.cols[x] /\ m.cols[x][tf[i][2]] = tf[i][1]

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
LookupOf(b) == {<<b[i], i - 1>> : i \in DOMAIN b}
EqCol(a, b, x) == a.cols[x] = b.cols[x]
================================================================================
