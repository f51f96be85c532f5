------------------------------ MODULE OracleModel -------------------------------
(* Design model: the algebra of views.  A state holds three stored matrices (all *)
(* 2x2 matrices over F_P, A with filtration and split basis) and a fourth view   *)
(* derived by one adaptor; the invariants are the laws C03, C04 and C06 promise. *)
EXTENDS OracleMachine
CONSTANTS P

Ids == {0, 1}
Vecs == {VClean(P, v) : v \in [Ids -> 0..(P - 1)]}
TermsOf(v) == LET s == SetToSeq(DOMAIN v) IN [i \in DOMAIN s |-> <<v[s[i]], s[i]>>]
Mats == [Ids -> Vecs]
ToTerms(M) == [x \in Ids |-> TermsOf(M[x])]

Init == /\ p = P
        /\ \E A \in Mats, B \in Mats :
             regs = <<VSplit(VFilt(VStore(1, ToTerms(A), Ids, TRUE), (0 :> 5 @@ 1 :> 3)), <<<<1>>, <<0>>>>),
                      VStore(2, ToTerms(B), Ids, TRUE)>>
Next == /\ Len(regs) < 3
        /\ \/ \E C \in Mats : Push(VStore(3, ToTerms(C), Ids, TRUE))
Spec == Init /\ [][Next]_ovars

A == regs[1]
B == regs[2]
C == regs[3]
Id == VStore(0, [x \in Ids |-> <<<<FOne(P), x>>>>], Ids, TRUE)

Laws2 ==
  /\ VRev(VRev(A)) = A
  /\ VRev(VProd(A, B)) = VProd(VRev(A), VRev(B))
  /\ VRev(VSum(A, B)) = VSum(VRev(A), VRev(B))
  /\ VProd(A, Id).cols = A.cols /\ VProd(Id, A).cols = A.cols
  /\ VProd(A, B).filt = A.filt /\ VProd(B, A).basis = A.basis /\ VProd(B, A).dims = A.dims
  /\ VCons(A).cols = A.cols
  /\ VSum(A, B).cols = VSum(B, A).cols
  /\ VRev(VSub(A, 1)) = VSub(VRev(A), 1)
  /\ VIndex(A).cols = [i \in 0..1 |-> A.cols[1 - i]]
  /\ VTrivial(A).cols = A.cols /\ VBare(A).cols = A.cols
Laws3 == Len(regs) = 3 =>
  /\ VProd(A, VProd(B, C)).cols = VProd(VProd(A, B), C).cols
  /\ VProd(A, VSum(B, C)).cols = VSum(VProd(A, B), VProd(A, C)).cols
  /\ VProd(VSum(B, C), A).cols = VSum(VProd(B, A), VProd(C, A)).cols
================================================================================
