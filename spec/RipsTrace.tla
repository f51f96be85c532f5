------------------------------- MODULE RipsTrace --------------------------------
(* Trace specification of C12-C15: what the code reported about the simplices,   *)
(* bases, matrices, diagrams and (command line) the report of a distance matrix. *)
EXTENDS Rips, BigNat, Json, IOUtils
VARIABLES st, c, l
(* st: the state of a conversation                                               *)
(*   enc  the vertex lists encoded so far (their indices are known to be equal   *)
(*        exactly for equal lists)                                               *)
(*   ord  dimension -> simplices in order of their indices                       *)
(*   bars <<p, degree>> -> barcode computed so far;  todo: what the report still *)
(*        has to contain                                                         *)
tvars == <<st, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[c]
Ev == T.ev
E == Ev[l]
Rng(s) == {s[i] : i \in DOMAIN s}
n == T.n
d == T.d
p == T.p

NoFun == [x \in {} |-> 0]
Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ st = [enc |-> <<>>, ord |-> NoFun, bars |-> NoFun, todo |-> NoFun]
Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c
Same == UNCHANGED st

\* ---- C12 ---------------------------------------------------------------------------
Two64 == <<616, 551, 709, 73, 744, 446, 18>>      \* 2^64
RECURSIVE Value(_, _)
Value(s, m) ==                                    \* sum of (s[i] + 1) (m + 1)^(i - 1)
  IF s = <<>> THEN <<>> ELSE BAdd(BFromInt(s[1] + 1), BMul(BFromInt(m + 1), Value(Tail(s), m)))
Representable(s) == BCmp(Value(s, n), Two64) < 0
\* encode, decode, dimension; E.same: the first of the indices so far that equals this one
TEnc ==
  /\ Step("enc")
  /\ E.s # <<>> /\ \A i \in DOMAIN E.s : E.s[i] \in 0..(n - 1)
  /\ Representable(E.s) =>
       /\ "failed" \notin DOMAIN E
       /\ E.back = E.s /\ E.dim = Len(E.s) - 1
       /\ (\A i \in DOMAIN st.enc : Representable(st.enc[i])) =>
             E.same = Min({i \in DOMAIN st.enc : st.enc[i] = E.s} \cup {Len(st.enc) + 1})
  /\ st' = [st EXCEPT !.enc = Append(@, E.s)]
\* all simplices of a dimension in the order of their indices
TOrder ==
  /\ Step("order")
  /\ Rng(E.r) = Simplices(n, E.k) /\ Len(E.r) = Cardinality(Simplices(n, E.k))
  /\ st' = [st EXCEPT !.ord = (E.k :> [s \in Rng(E.r) |-> CHOOSE i \in DOMAIN E.r : E.r[i] = s]) @@ @]
\* every simplex once, by diameter and then index
Sorted(q, k) == \A i \in 1..(Len(q) - 1) :
                  LET a == Diam(d, q[i])
                      b == Diam(d, q[i + 1])
                  IN a < b \/ (a = b /\ st.ord[k][q[i]] < st.ord[k][q[i + 1]])
TBasis ==
  /\ Step("basis")
  /\ Len(E.dims) = E.k + 1
  /\ \A k \in 0..E.k : /\ Rng(E.dims[k + 1]) = Simplices(n, k)
                       /\ Len(E.dims[k + 1]) = Cardinality(Simplices(n, k))
                       /\ Sorted(E.dims[k + 1], k)
  \* the flattened view has the same elements, in the same order within each dimension
  /\ \A k \in 0..E.k : SelectSeq(E.all, LAMBDA s : Len(s) = k + 1) = E.dims[k + 1]
  /\ \A i \in DOMAIN E.all : Len(E.all[i]) - 1 \in 0..E.k
  /\ Same
\* the same for a basis of many simplices; E.lt[k + 1][i]: the index of entry i is less than that of entry i + 1.
\* Strictly sorted, so no simplex occurs twice; as many as there are, so none is missing.
RECURSIVE Binom(_, _)
Binom(m, k) == IF k = 0 THEN 1 ELSE IF m < k THEN 0 ELSE (Binom(m - 1, k - 1) * m) \div k
SortedBy(q, lt) == LET dm == TLCEval([i \in DOMAIN q |-> Diam(d, q[i])])
                   IN \A i \in 1..(Len(q) - 1) : dm[i] < dm[i + 1] \/ (dm[i] = dm[i + 1] /\ lt[i])
LongOK ==
  LET ev == TLCEval(E)
  IN /\ Len(ev.dims) = ev.k + 1
     /\ \A k \in 0..ev.k :
          LET q == ev.dims[k + 1]
          IN /\ Len(q) = Binom(n, k + 1)
             /\ \A i \in DOMAIN q : Len(q[i]) = k + 1 /\ IsSimplex(n, q[i])
             /\ SortedBy(q, ev.lt[k + 1])
             /\ SelectSeq(ev.all, LAMBDA s : Len(s) = k + 1) = q
     /\ \A i \in DOMAIN ev.all : Len(ev.all[i]) - 1 \in 0..ev.k
TLong == Step("long") /\ LongOK = TRUE /\ Same

\* ---- C13 ---------------------------------------------------------------------------
Terms(s) == IF E.mat = "bd" THEN Boundary(p, s) ELSE Coboundary(p, n, s)
Exactly(r, S) == Len(r) = Cardinality(S) /\ Rng(r) = S
TCol == /\ Step("col")
        /\ TRUE = Exactly([i \in DOMAIN E.r |-> <<E.r[i][1], E.r[i][2]>>], Terms(E.s)) /\ Same
TFCol == /\ Step("fcol")
         /\ TRUE = Exactly([i \in DOMAIN E.r |-> <<E.r[i][1], E.r[i][2], E.r[i][3]>>],
                    {<<q[1], q[2], Diam(d, q[2])>> : q \in Terms(E.s)}) /\ Same
THeap == /\ Step("heap")
         /\ TRUE = Exactly([i \in DOMAIN E.r |-> <<E.r[i][1], E.r[i][2], E.r[i][3]>>],
                    {<<q[1], q[2], Diam(d, q[2])>> : q \in Terms(E.s)})
         \* decreasing, or increasing diameter in the reversed matrix
         /\ \A i \in 1..(Len(E.r) - 1) : IF E.view = "rev" THEN E.r[i][3] <= E.r[i + 1][3] ELSE E.r[i][3] >= E.r[i + 1][3]
         /\ Same
TFVal == Step("fval") /\ E.r = Diam(d, E.s) /\ Same

\* ---- C14 ---------------------------------------------------------------------------
WithBars(degs) ==
  LET new == {<<p, g>> : g \in degs} \ DOMAIN st.bars
  IN [st EXCEPT !.bars = TLCEval([q \in new |-> LongBars(BarsOf(p, d, n, q[2]))]) @@ @]
\* degrees the computation determines
Determined(route, k) == IF route \in {"b_std", "b_stdt", "b_read", "b_clr"} THEN 0..(k - 1) ELSE 0..k
TBars ==
  /\ Step("bars")
  /\ \E degs \in {Determined(E.route, E.k)} : \E fin \in {SelectSeq(E.fin, LAMBDA q : q[3] # q[4])} :
        /\ st' = WithBars(degs)
        /\ TRUE = (\A i \in DOMAIN E.fin : E.fin[i][2] = E.fin[i][1] + 1 /\ E.fin[i][1] \in degs)
        /\ \A g \in degs :
             /\ \E f \in {SelectSeq(fin, LAMBDA q : q[1] = g)} :
                  Count([i \in DOMAIN f |-> <<f[i][3], f[i][4]>>]) = st'.bars[<<p, g>>]
             /\ \E f \in {SelectSeq(E.ess, LAMBDA q : q[1] = g)} :
                  Count([i \in DOMAIN f |-> f[i][2]]) = (IF g = 0 THEN OnlyComponent(n) ELSE NoFun)
        \* nothing but the component survives in cohomology; the boundary matrix leaves cycles of the top degree open
        /\ TRUE = (\A i \in DOMAIN E.ess : E.ess[i][1] \in degs \cup (IF degs = 0..E.k THEN {} ELSE {E.k}))

\* ---- C15: the report of the command line program, one line after the other -----------------
\* bars longer than 0.01.  Distances are integers over T.scale, or places in the table T.vals of
\* exact decimals (limbs of distance * 10^18, see BigNat)
Hundredth == <<0, 0, 0, 0, 0, 10>>
Longer(a, b) == IF "vals" \in DOMAIN T THEN BCmp(T.vals[b + 1], BAdd(T.vals[a + 1], Hundredth)) > 0
                ELSE (b - a) * 100 > T.scale
Reported(B) == {q \in DOMAIN B : q[2] = 999999 \/ Longer(q[1], q[2])}
TRun ==
  /\ Step("run")
  /\ st' =
     LET k == IF E.arg = "" THEN 1 ELSE E.k
         b == TLCEval([g \in 0..k |-> LongBars(BarsOf(2, d, n, g))])
         sizes == [x \in {<<"size", g, Cardinality(Simplices(n, g)), 0>> : g \in 0..k} |-> 1]
         ess == IF n = 0 THEN NoFun ELSE (<<"ess", 0, 0, 0>> :> 1)
         fin == [x \in UNION {{<<"fin", g, q[1], q[2]>> : q \in Reported(b[g])} : g \in 0..k} |-> b[x[2]][<<x[3], x[4]>>]]
     IN [st EXCEPT !.todo = sizes @@ ess @@ fin]
TLine ==
  /\ Step("line")
  /\ \E x \in {<<E.t, E.a[1], E.a[2], E.a[3]>>} :
        /\ x \in DOMAIN st.todo
        /\ st' = [st EXCEPT !.todo = IF @[x] = 1 THEN [y \in DOMAIN @ \ {x} |-> @[y]] ELSE [@ EXCEPT ![x] = @ - 1]]
TEnd == Step("end") /\ E.code = 0 /\ st.todo = NoFun /\ Same

Accept == l = Len(Ev) + 1 /\ T.outcome = "ok" /\ UNCHANGED tvars
Next == TEnc \/ TOrder \/ TBasis \/ TLong \/ TCol \/ TFCol \/ THeap \/ TFVal \/ TBars \/ TRun \/ TLine \/ TEnd \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
