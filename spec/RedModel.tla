-------------------------------- MODULE RedModel --------------------------------
(* Every N x N matrix over F_P and every behaviour of RedMachine on it:          *)
(* whatever reduced columns are taken, in whatever order, the pairing found at   *)
(* the end is the one determined by ranks.                                       *)
EXTENDS RedMachine
CONSTANTS P, N

Ids == 1..N
Vecs == {VClean(P, v) : v \in [Ids -> 0..(P - 1)]}
Init == /\ p = P /\ D \in [Ids -> Vecs] /\ cols = Ids
        /\ \E pi \in Permutations(Ids) : ord = [j \in Ids |-> <<1, pi[j]>>]
        /\ V = VEmpty /\ lows = VEmpty /\ zeros = {}
Next == \E j \in Ids : \E v \in Vecs : TakeCol(j, v)
Spec == Init /\ [][Next]_rvars
View == <<D, ord, DOMAIN V, lows, zeros>>       \* which V was taken does not matter further
Unique == Done => Pairs = RankPairs
================================================================================
