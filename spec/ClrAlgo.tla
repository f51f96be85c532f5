-------------------------------- MODULE ClrAlgo ---------------------------------
(* The clearing algorithm, one column addition per step, on every graded         *)
(* filtered complex with the given sizes over F_P (cells 1..n in filtration      *)
(* order, any assignment of degrees, d.d = 0).  Degrees are reduced from the top.*)
(* Checked: refinement of RedMachine, decreasing pivots, termination, the rank   *)
(* pairing, every cell in exactly one place of the diagram.                      *)
EXTENDS RedMachine
CONSTANTS P, N, TopDim, LowDim     \* degrees LowDim..TopDim are reduced; cells have degrees 0..2
VARIABLES deg, dim, i, r, v, dgm, rp
avars == <<p, D, cols, ord, V, lows, zeros, deg, dim, i, r, v, dgm, rp>>

Ids == 1..N
CellsOf(d) == {x \in Ids : deg[x] = d}
SubVecs(S) == {VClean(P, w) : w \in [S -> 0..(P - 1)]}
RECURSIVE Fill(_, _)
\* all boundary maps of cells k..N, given those of the earlier ones
Fill(k, dg) ==
  IF k > N THEN {VEmpty}
  ELSE {(k :> w) @@ rest :
          w \in SubVecs({x \in 1..(k - 1) : dg[x] = dg[k] - 1}), rest \in Fill(k + 1, dg)}
IsComplex(DD) == \A j \in Ids : LinComb(P, DD, DD[j]) = VEmpty

Basis(d) == SetToSortSeq(CellsOf(d), LAMBDA a, b : a < b)
Size(d) == Cardinality(CellsOf(d))
Init == /\ p = P
        /\ deg \in [Ids -> 0..2] /\ deg[1] = 0
        /\ D \in {DD \in Fill(1, deg) : IsComplex(DD)}
        /\ cols = {x \in Ids : deg[x] \in LowDim..TopDim}
        /\ ord = [x \in Ids |-> <<deg[x], Cardinality({y \in Ids : deg[y] = deg[x] /\ y <= x})>>]
        /\ V = VEmpty /\ lows = VEmpty /\ zeros = {}
        /\ dim = TopDim /\ i = 0 /\ r = VEmpty /\ v = VEmpty
        /\ dgm = [ess |-> {}, pairs |-> {}]
        /\ rp = RankPairs

Cur == Basis(dim)[i]
SkipCleared == \* i = 0: between columns;  go to the next column of the degree that is not cleared
  /\ i >= 0 /\ dim >= LowDim /\ r = VEmpty /\ v = VEmpty
  /\ LET nxt == {k \in (i + 1)..Size(dim) : Basis(dim)[k] \notin DOMAIN V}
     IN IF nxt = {} THEN dim' = dim - 1 /\ i' = 0 /\ UNCHANGED <<r, v>>
        ELSE /\ i' = MinOf(nxt) /\ UNCHANGED dim
             /\ r' = D[Basis(dim)[MinOf(nxt)]] /\ v' = (Basis(dim)[MinOf(nxt)] :> FOne(p))
  /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, deg, dgm, rp>>
Hit == DOMAIN r # {} /\ Pivot(r) \in DOMAIN lows /\ deg[lows[Pivot(r)]] = dim
AddColumn ==
  /\ Hit
  /\ LET j == lows[Pivot(r)]
         rj == RCol(V[j])
         m == FNeg(p, FMul(p, r[Pivot(r)], FInv(p, rj[Pivot(r)])))
     IN r' = VAxpy(p, r, m, rj) /\ v' = VAxpy(p, v, m, V[j])
  /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, deg, dim, i, dgm, rp>>
Save ==
  /\ v # VEmpty /\ ~Hit
  /\ IF r = VEmpty
     THEN TakeCol(Cur, v) /\ dgm' = [dgm EXCEPT !.ess = @ \cup {Cur}]
     ELSE /\ dgm' = [dgm EXCEPT !.pairs = @ \cup {<<Pivot(r), Cur>>}]
          /\ IF Pivot(r) \in cols THEN TakeTwo(Cur, v, Pivot(r), r) ELSE TakeCol(Cur, v)
  /\ r' = VEmpty /\ v' = VEmpty
  /\ UNCHANGED <<deg, dim, i, rp>>
Finished == dim < LowDim
Next == SkipCleared \/ AddColumn \/ Save
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)

Consistent == v # VEmpty => r = RCol(v) /\ VColOK(Cur, v)
Decreasing == [][AddColumn => (DOMAIN r' = {} \/ Pivot(r') < Pivot(r))]_avars
NeverStuck == Finished \/ Hit \/ (IF v # VEmpty THEN ENABLED Save ELSE ENABLED SkipCleared)
AtEnd == Finished => /\ Done /\ Pairs = rp /\ BirthsVanish
                     /\ OwnPairs(Own) = rp /\ OwnEss(Own) = Essential
                     /\ dgm.pairs = Pairs /\ dgm.ess = Essential
                     /\ \A x \in cols : Cardinality({q \in Pairs : x \in {q[1], q[2]}}) = (IF x \in Essential THEN 0 ELSE 1)
Terminates == <>Finished
================================================================================
