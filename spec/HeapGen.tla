-------------------------------- MODULE HeapGen --------------------------------
(* One implementation test per transition of the explored ColumnHeap graph:     *)
(* hist is a path to the transition (hidden by the VIEW), printed as JSON.      *)
EXTENDS ColumnHeap, Json
CONSTANTS Rows, P, MaxSize, MaxLen, TwoHeaps

VARIABLE hist
gvars == <<p, bags, hist>>
View == <<p, bags>>

Filt(r) == CASE r = 0 -> 2 [] r = 1 -> 1 [] r = 2 -> 1 [] OTHER -> 0
H == IF TwoHeaps THEN {1, 2} ELSE {1}
Coefs == 1..(P - 1)
Log(e) == hist' = Append(hist, e)

Init == p = P /\ bags = [h \in H |-> NoTerms] /\ hist = <<>>

Next ==
  /\ Len(hist) < MaxLen
  /\ \E h \in H :
     \/ \E r \in Rows, c \in Coefs :
          /\ Size(bags[h]) < MaxSize
          /\ AddTerms(h, <<<<c, r, Filt(r)>>>>)
          /\ Log([op |-> "add", h |-> h, t |-> <<c, r, Filt(r)>>, via |-> IF c = 1 THEN "entry" ELSE "tuple"])
     \/ Pop(h, PivOpt(p, bags[h])) /\ Log([op |-> "pop", h |-> h])
     \/ ClonePivot(h, PivOpt(p, bags[h])) /\ Log([op |-> "clone", h |-> h])
     \/ Peek(h, PivOpt(p, bags[h])) /\ Log([op |-> "peek", h |-> h])
     \/ \E n \in 0..2 : Drain(h, n, DrainN(p, bags[h], n, <<>>)[1]) /\ Log([op |-> "drain", h |-> h, n |-> n])
     \/ ToVec(h, DrainN(p, bags[h], Size(bags[h]) + 1, <<>>)[1]) /\ Log([op |-> "vec", h |-> h])
     \/ \E g \in H \ {h} : Copy(h, g) /\ Log([op |-> "copy", h |-> h, from |-> g])
Spec == Init /\ [][Next]_gvars

Emit == PrintT(ToJson(hist'))
================================================================================
