-------------------------------- MODULE RedTrace --------------------------------
(* Trace specification of C07-C11: the columns of V an algorithm returned are a  *)
(* behaviour of RedMachine, and diagram and cycle flags are what its final state *)
(* says.  Ids are first mapped to positions in (filtration value, id) order      *)
(* (reversed when the matrix was reversed).                                      *)
EXTENDS RedMachine, Json, IOUtils
VARIABLES basis, dims, pos, sp, c, l
tvars == <<p, D, cols, ord, V, lows, zeros, basis, dims, pos, sp, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[c]
Ev == T.ev
E == Ev[l]
Rng(s) == {s[i] : i \in DOMAIN s}
NoPairs == <<FALSE, {}, {}>>

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ p = T.p /\ D = VEmpty /\ cols = {} /\ ord = VEmpty
        /\ V = VEmpty /\ lows = VEmpty /\ zeros = {}
        /\ basis = <<>> /\ dims = <<>> /\ pos = VEmpty /\ sp = NoPairs

Step(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED c

MapTerms(t, po) == [i \in DOMAIN t |-> <<t[i][1], po[t[i][2]]>>]
MapIds(s) == [i \in DOMAIN s |-> pos[s[i]]]
RevSeq(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* the place of every element of a sequence of distinct naturals (0: not in the sequence)
Inv(s) == LET m == IF s = <<>> THEN 0 ELSE Max(Rng(s))
          IN FoldLeftDomain(LAMBDA a, i : [a EXCEPT ![s[i]] = i], [k \in 0..m |-> 0], s)
Positions ==
  LET f == T.filt
      n == Len(f)
      s == SortSeq(f, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
      at == TLCEval(Inv([i \in 1..n |-> s[i][1]]))
  IN TLCEval([r \in {f[i][1] : i \in DOMAIN f} |-> IF T.rev THEN n + 1 - at[r] ELSE at[r]])
Setup ==
  /\ Step("setup")
  /\ pos' = Positions
  /\ D' = LET ks == [i \in DOMAIN T.cols |-> pos'[T.cols[i][1]]]
              at == TLCEval(Inv(ks))
          IN TLCEval([k \in Rng(ks) |-> SumTerms(p, MapTerms(T.cols[at[k]][2], pos'))])
  /\ LET Bas(b) == LET q == [i \in DOMAIN b |-> pos'[b[i]]] IN IF T.rev THEN RevSeq(q) ELSE q
     IN basis' = Bas(T.basis) /\ dims' = [d \in DOMAIN T.dims |-> Bas(T.dims[d])]
  /\ UNCHANGED <<p, cols, ord, V, lows, zeros, sp>>

Begin(cs, o) ==
  /\ cols' = cs /\ ord' = o
  /\ V' = VEmpty /\ lows' = VEmpty /\ zeros' = {}
  /\ UNCHANGED <<p, D, basis, dims, pos, sp>>
Places(S, g) == LET at == TLCEval(Inv(S)) IN TLCEval([k \in Rng(S) |-> <<g, at[k]>>])
RECURSIVE DimPlaces(_, _)
DimPlaces(order, i) == IF i > Len(order) THEN VEmpty
                       ELSE Places(dims[order[i]], order[i]) @@ DimPlaces(order, i + 1)

\* the columns of V of one algorithm have been listed completely
SeenAll == Done /\ (T.complex => BirthsVanish)

\* an algorithm run starts (what was listed of the previous one must be complete)
TStd == /\ Step("std") /\ (V # VEmpty => SeenAll)
        /\ \E S \in {IF E.sub = 0 THEN basis ELSE dims[E.sub]} : Begin(Rng(S), Places(S, 0))
TClr == /\ Step("clr") /\ (V # VEmpty => SeenAll)
        /\ \E o \in {DimPlaces(E.order, 1)} : Begin(DOMAIN o, o)
TV   == /\ Step("v")
        /\ \E v \in {SumTerms(p, MapTerms(E.v, pos))} : TakeCol(pos[E.j], v)
        /\ UNCHANGED <<basis, dims, pos, sp>>
\* the basis of V is that of the matrix
TVBasis == /\ Step("vbasis")
           /\ MapIds(E.all) = basis
           /\ \A i \in DOMAIN E.by : MapIds(E.by[i]) = dims[E.order[i]]
           /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, basis, dims, pos, sp>>
TCyc == /\ Step("cyc")
        /\ E.r = (pos[E.j] \in zeros)
        /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, basis, dims, pos, sp>>

PosPairs(q) == {<<pos[q[i][1]], pos[q[i][2]]>> : i \in DOMAIN q}
PosSet(e) == {pos[e[i]] : i \in DOMAIN e}
\* in a complex (marked by the driver) every element occurs exactly once
OnceEach(prs, ess) ==
  \E B \in {{q[1] : q \in prs}} : \E F \in {{q[2] : q \in prs}} :
     /\ Cardinality(B) = Cardinality(prs) /\ Cardinality(F) = Cardinality(prs)
     /\ B \cap F \cap cols = {}
     /\ (B \cup F) \cap cols = cols \ ess
TDiag ==
  /\ Step("diag")
  /\ \E o \in {Own} : \E prs \in {OwnPairs(o)} : \E ess \in {OwnEss(o)} :
        /\ PosPairs(E.pairs) = prs /\ Len(E.pairs) = Cardinality(prs)
        /\ PosSet(E.ess) = ess /\ Len(E.ess) = Cardinality(ess)
        /\ T.complex => OnceEach(prs, ess)
        /\ T.ranks => prs = RankPairs
        \* clearing finds the pairs of the standard algorithm on the same columns
        /\ IF E.alg = "std" THEN sp' = <<TRUE, prs, cols>>
           ELSE /\ sp[1] /\ cols \subseteq sp[3] => prs = {q \in sp[2] : q[2] \in cols}
                /\ UNCHANGED sp
  /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, basis, dims, pos>>

\* C11: requests made to the user's matrix while an algorithm ran (before its result is looked at)
TReq ==
  /\ Step("req")
  /\ \A x \in Rng(E.cols) : x \in DOMAIN pos /\ pos[x] \in cols
  /\ TRUE =
     LET asked == UNION {Rng(Ev[m].cols) : m \in {k \in 1..l : Ev[k].op = "req"}}
         rows  == UNION {{T.cols[i][2][k][2] : k \in DOMAIN T.cols[i][2]} : i \in {i \in DOMAIN T.cols : T.cols[i][1] \in asked}}
     IN Rng(E.filts) \subseteq rows
  /\ E.phase = "construct" => E.cols = <<>> /\ E.filts = <<>>
  \* E.births: the births of the diagram the clearing algorithm returned
  /\ E.phase = "clr" => Rng(E.cols) \cap Rng(E.births) = {}
  /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, basis, dims, pos, sp>>

Accept == l = Len(Ev) + 1 /\ T.outcome = "ok" /\ (V # VEmpty => SeenAll) /\ UNCHANGED tvars
Next == Setup \/ TStd \/ TClr \/ TV \/ TCyc \/ TVBasis \/ TDiag \/ TReq \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
