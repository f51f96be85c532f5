-------------------------------- MODULE StdAlgo ---------------------------------
(* The standard algorithm, one column addition per step, on every N x N matrix   *)
(* over F_P and every column order.  Checked: it refines RedMachine, the pivot   *)
(* of the working column strictly decreases (so it terminates), and it ends with *)
(* every column reduced and the rank pairing.                                    *)
EXTENDS RedMachine
CONSTANTS P, N
VARIABLES i,          \* place of the column being reduced (N + 1: finished)
          r, v,       \* working columns
          rp
avars == <<p, D, cols, ord, V, lows, zeros, i, r, v, rp>>

Ids == 1..N
Vecs == {VClean(P, w) : w \in [Ids -> 0..(P - 1)]}
ColAt(k) == CHOOSE j \in Ids : ord[j][2] = k
Load(k) == IF k <= N
           THEN r' = D[ColAt(k)] /\ v' = (ColAt(k) :> FOne(P))
           ELSE r' = VEmpty /\ v' = VEmpty
Init == /\ p = P /\ D \in [Ids -> Vecs] /\ cols = Ids
        /\ \E pi \in Permutations(Ids) : ord = [j \in Ids |-> <<1, pi[j]>>]
        /\ V = VEmpty /\ lows = VEmpty /\ zeros = {}
        /\ rp = RankPairs /\ i = 1
        /\ r = D[ColAt(1)] /\ v = (ColAt(1) :> FOne(P))

Hit == i <= N /\ DOMAIN r # {} /\ Pivot(r) \in DOMAIN lows
AddColumn ==
  /\ Hit
  /\ LET j == lows[Pivot(r)]
         rj == RCol(V[j])
         m == FNeg(p, FMul(p, r[Pivot(r)], FInv(p, rj[Pivot(r)])))
     IN r' = VAxpy(p, r, m, rj) /\ v' = VAxpy(p, v, m, V[j])
  /\ UNCHANGED <<p, D, cols, ord, V, lows, zeros, i, rp>>
Save ==
  /\ i <= N /\ ~Hit
  /\ TakeCol(ColAt(i), v)
  /\ i' = i + 1 /\ Load(i + 1) /\ UNCHANGED rp
Next == AddColumn \/ Save
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)

Consistent == i <= N => r = RCol(v) /\ VColOK(ColAt(i), v)
Decreasing == [][AddColumn => (DOMAIN r' = {} \/ Pivot(r') < Pivot(r))]_avars
NeverStuck == i <= N => (Hit \/ ENABLED Save)
AtEnd == i > N => Done /\ Pairs = rp /\ OwnPairs(Own) = rp /\ OwnEss(Own) = Essential
Terminates == <>(i > N)
================================================================================
