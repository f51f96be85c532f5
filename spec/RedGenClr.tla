------------------------------- MODULE RedGenClr --------------------------------
(* every initial state of ClrAlgo (a graded filtered complex) as a test input    *)
EXTENDS ClrAlgo, Json
TermSeq(v0) == LET s == SetToSeq(DOMAIN v0) IN [k \in DOMAIN s |-> <<v0[s[k]], s[k]>>]
Emit == PrintT(ToJson([cols |-> [j \in Ids |-> <<j, TermSeq(D[j])>>], dims |-> [d \in 1..3 |-> Basis(d - 1)]]))
Stop == FALSE /\ UNCHANGED avars
GSpec == Init /\ [][Stop]_avars
================================================================================
