------------------------------- MODULE RipsTorsion -------------------------------
(* The barcode depends on the field: an 11-point metric space whose Rips complex  *)
(* at distance 1 is the projective plane.                                         *)
EXTENDS Rips
VARIABLE p
Edges == {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<0, 6>>, <<0, 8>>, <<1, 2>>, <<1, 5>>, <<1, 8>>, <<1, 9>>, <<2, 4>>,
  <<2, 5>>, <<2, 7>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 9>>, <<4, 7>>, <<4, 9>>, <<4, 10>>, <<5, 6>>, <<5, 7>>, <<5, 9>>,
  <<6, 7>>, <<6, 8>>, <<7, 8>>, <<7, 10>>, <<8, 9>>, <<8, 10>>, <<9, 10>>}
d == [i \in 1..11 |-> [j \in 1..11 |-> IF i = j THEN 0 ELSE IF {<<i - 1, j - 1>>, <<j - 1, i - 1>>} \cap Edges # {} THEN 1 ELSE 2]]
VARIABLE go
Init == p \in Primes \cup {0} /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, go>>
None == [x \in {} |-> 0]
Torsion == go =>
           /\ Bars(p, d, 11, 0) = (<<0, 1>> :> 10)
           /\ LongBars(Bars(p, d, 11, 1)) = (IF p = 2 THEN (<<1, 2>> :> 1) ELSE None)
           /\ LongBars(Bars(p, d, 11, 2)) = (IF p = 2 THEN (<<1, 2>> :> 1) ELSE None)
================================================================================
