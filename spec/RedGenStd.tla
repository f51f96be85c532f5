------------------------------- MODULE RedGenStd --------------------------------
(* every initial state of StdAlgo (a matrix and a column order) as a test input  *)
EXTENDS StdAlgo, Json
TermSeq(v0) == LET s == SetToSeq(DOMAIN v0) IN [k \in DOMAIN s |-> <<v0[s[k]], s[k]>>]
Emit == PrintT(ToJson([cols |-> [j \in Ids |-> <<j, TermSeq(D[j])>>], basis |-> [k \in Ids |-> ColAt(k)]]))
Stop == FALSE /\ UNCHANGED avars
GSpec == Init /\ [][Stop]_avars
================================================================================
