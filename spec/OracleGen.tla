------------------------------- MODULE OracleGen --------------------------------
(* All programs of at most Depth adaptors/combinators (each in every syntactic   *)
(* variant the library offers) applied to one stored matrix; each is printed     *)
(* with an observation of every register at its end, as an implementation test.  *)
EXTENDS OracleMachine, Json
CONSTANTS P, Depth, Bases

VARIABLE hist
gvars == <<p, regs, hist>>

\* a 3x3 matrix with repeated and cancelling terms, and an empty column
T0 == 0 :> <<<<1, 0>>, <<P - 1, 2>>>>
   @@ 1 :> <<<<1, 1>>, <<1, 0>>, <<P - 1, 1>>, <<1, 2>>, <<1, 0>>>>
   @@ 2 :> <<>>
T1 == 0 :> <<<<1, 2>>, <<1, 0>>>> @@ 1 :> <<<<1, 2>>>> @@ 2 :> <<<<1, 0>>, <<1, 1>>>>      \* all ones
PairsOf(T) == [i \in 1..3 |-> <<i - 1, T[i - 1]>>]

Store(via) ==
  LET op == IF via \in {"vowned", "vborrowed", "vcow", "vnew", "allone"} THEN "vecvec"
            ELSE IF via \in {"mowned", "mref"} THEN "mapvec" ELSE "custom"
      v  == CASE via = "vowned" -> "owned" [] via = "mowned" -> "owned" [] via = "vborrowed" -> "borrowed"
              [] via = "vcow" -> "cow" [] via = "mref" -> "ref" [] OTHER -> via
      T  == IF via = "allone" THEN T1 ELSE T0
  IN  [ev |-> [op |-> op, via |-> v, cols |-> PairsOf(T), rows |-> <<0, 1, 2>>],
       m  |-> VStore(1, T, {0, 1, 2}, op = "vecvec")]

Init == /\ p = P
        /\ \E via \in Bases : regs = <<Store(via).m>> /\ hist = <<Store(via).ev>>

K == Len(regs)
M == regs[K]
FiltOf(m) == [r \in m.rows |-> (r * r + 2 * r) % 3]
FnPairs(f) == LET s == SetToSeq(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]
Desc(S) == LET s == SortSeq(SetToSeq(S), LAMBDA x, y : x > y) IN s
SplitOf(m) == <<Desc({x \in DOMAIN m.cols : x % 2 = 0}), Desc({x \in DOMAIN m.cols : x % 2 # 0})>>

Do(e, m) == Push(m) /\ hist' = Append(hist, e)
V(op, vias) == {[op |-> op, m |-> K, via |-> v] : v \in vias}

Next ==
  /\ Len(hist) <= Depth
  /\ \/ \E e \in V("trivial", {""}) : Do(e, VTrivial(M))
     \/ Do([op |-> "filt", m |-> K, f |-> FnPairs(FiltOf(M))], VFilt(M, FiltOf(M)))
     \/ Do([op |-> "discard", m |-> K, f |-> FnPairs(FiltOf(M))], M)
     \/ \E v \in {"vec", "ref", "new", "lit"} :
          Do([op |-> "basis", m |-> K, via |-> v, b |-> Desc(DOMAIN M.cols)], VBasis(M, Desc(DOMAIN M.cols)))
     \/ \E v \in {"own", "ref"} :
          Do([op |-> "split", m |-> K, via |-> v, d |-> SplitOf(M)], VSplit(M, SplitOf(M)))
     \/ \E e \in V("cons", {""}) : Do(e, VCons(M))
     \/ \E e \in V("cache", {"", "manual"}) : Do(e, M)
     \/ \E x \in DOMAIN M.cols : Do([op |-> "cache", m |-> K, via |-> "clone", x |-> x], M)
     \/ \E e \in V("ref", {"", "refref"}) : Do(e, M)
     \/ \E e \in V("ptr", {"box", "rc", "arc"}) : Do(e, VBare(M))
     \/ \E e \in V("rev", {"", "ref"}) \cup V("unrev", {""}) : Do(e, VRev(M))
     \/ \E e \in V("revunrev", {"inherent", "ref", ""}) \cup V("revrev", {""}) : Do(e, VRev(VRev(M)))
     \/ \E d \in 1..2 :
          /\ CanSub(M, d)
          /\ \/ \E op \in {"revsub", "unrevsub", "subrev"} : Do([op |-> op, m |-> K, d |-> d], VSub(VRev(M), d))
             \/ Do([op |-> "sub", m |-> K, d |-> d], VSub(M, d))
             \/ Do([op |-> "subindex", m |-> K, d |-> d], VIndex(VSub(M, d)))
     \/ CanIndex(M) /\ Do([op |-> "index", m |-> K], VIndex(M))
     \/ CanIndex(M) /\ Do([op |-> "revindex", m |-> K], VIndex(VRev(M)))
     \/ \E v \in {"", "ref", "clone"}, q \in {<<K, 1>>, <<1, K>>, <<K, K>>} :
          /\ CanProd(regs[q[1]], regs[q[2]])
          /\ Do([op |-> "prod", a |-> q[1], b |-> q[2], via |-> v], VProd(regs[q[1]], regs[q[2]]))
     \/ \E v \in {"", "ref"}, q \in {<<K, 1>>, <<1, K>>, <<K, K>>} :
          /\ CanSum(regs[q[1]], regs[q[2]])
          /\ Do([op |-> "sum", a |-> q[1], b |-> q[2], via |-> v], VSum(regs[q[1]], regs[q[2]]))
     \/ \E q \in {<<K, 1>>, <<1, K>>} :
          /\ CanProd(regs[q[1]], regs[q[2]])
          /\ Do([op |-> "prodcons", a |-> q[1], b |-> q[2]], VCons(VProd(regs[q[1]], regs[q[2]])))
     \/ \E v \in {"", "cached", "cons"} :
          /\ CanProd(M, M) /\ CanProd(M, regs[1])
          /\ Do([op |-> "prodprod", a |-> K, b |-> K, c |-> 1, via |-> v], VProd(M, VProd(M, regs[1])))
     \/ /\ CanProd(M, M) /\ CanSum(M, regs[1]) /\ CanProd(M, regs[1])
        /\ Do([op |-> "sumprod", a |-> K, b |-> K, c |-> 1], VProd(M, VSum(M, regs[1])))
Spec == Init /\ [][Next]_gvars

Obs(i) == [op |-> "obs", m |-> i, cs |-> SetToSeq(DOMAIN regs[i].cols), rs |-> SetToSeq(regs[i].rows)]
Emit == Len(hist) > 1 => PrintT(ToJson(hist \o [i \in 1..Len(regs) |-> Obs(i)]))
================================================================================
