------------------------------- MODULE RipsModel --------------------------------
(* Design model of Rips: every distance matrix on at most N points with the      *)
(* given values.  Boundary and coboundary are transposes and compose to zero,    *)
(* the filtration is monotone, degree 0 is given by a minimum spanning tree      *)
(* (Kruskal), and only one class never dies.  Prints one case per state.         *)
EXTENDS Rips, Json
CONSTANTS N, Vals, P, K
VARIABLES n, w     \* w: pair <<i, j>> -> distance
Pairs(m) == {q \in (0..(m - 1)) \X (0..(m - 1)) : q[1] < q[2]}
\* the distances are chosen one after the other
Init == n \in 0..N /\ w = VEmpty
Next == /\ DOMAIN w # Pairs(n)
        /\ \E v \in Vals :
             w' = ((CHOOSE q \in Pairs(n) \ DOMAIN w : \A x \in Pairs(n) \ DOMAIN w : q[1] * N + q[2] <= x[1] * N + x[2]) :> v) @@ w
        /\ UNCHANGED n
Full == DOMAIN w = Pairs(n)
Spec == Init /\ [][Next]_<<n, w>>
d == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF i < j THEN w[<<i - 1, j - 1>>] ELSE w[<<j - 1, i - 1>>]]]
All == UNION {Simplices(n, k) : k \in 0..(n - 1)}

\* n choose k+1 simplices, all distinct, closed under faces
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Counting == Full =>
            \A k \in 0..(n - 1) : /\ Cardinality(Simplices(n, k)) * Fact(k + 1) * Fact(n - k - 1) = Fact(n)
                                  /\ \A s \in Simplices(n, k) : IsSimplex(n, s) /\ Dim(s) = k
Transposed == Full => \A s \in All : \A q \in Coboundary(P, n, s) : <<q[1], s>> \in Boundary(P, q[2])
Transposed2 == Full => \A s \in All : \A q \in Boundary(P, s) : <<q[1], s>> \in Coboundary(P, n, q[2])
NoRepeats == Full => \A s \in All : /\ Cardinality({q[2] : q \in Boundary(P, s)}) = (IF Len(s) = 1 THEN 0 ELSE Len(s))
                            /\ Cardinality({q[2] : q \in Coboundary(P, n, s)}) = n - Len(s)
Vec(T) == [x \in {q[2] : q \in T} |-> (CHOOSE q \in T : q[2] = x)[1]]
Apply(F(_), v) == LET S == SetToSeq(DOMAIN v)
                  IN FoldSeq(LAMBDA x, a : VAdd(P, VScale(P, v[x], Vec(F(x))), a), VEmpty, S)
Squares == Full => \A s \in All : /\ DOMAIN Apply(LAMBDA x : Boundary(P, x), Vec(Boundary(P, s))) = {}
                          /\ DOMAIN Apply(LAMBDA x : Coboundary(P, n, x), Vec(Coboundary(P, n, s))) = {}
Monotone == Full => \A s \in All : \A q \in Boundary(P, s) : Diam(d, q[2]) <= Diam(d, s)

\* Kruskal: lengths of the edges of a minimum spanning tree
RECURSIVE Kruskal(_, _, _)
Kruskal(E, comp, acc) ==
  IF E = {} THEN acc
  ELSE LET e == CHOOSE x \in E : \A y \in E : w[x] <= w[y]
           a == comp[e[1]]
           b == comp[e[2]]
       IN IF a = b THEN Kruskal(E \ {e}, comp, acc)
          ELSE Kruskal(E \ {e}, [v \in DOMAIN comp |-> IF comp[v] = a THEN b ELSE comp[v]], Append(acc, w[e]))
Tree == Kruskal(Pairs(n), [v \in 0..(n - 1) |-> v], <<>>)
Spanning == Full => LET B == Bars(P, d, n, 0) IN
            /\ Count([i \in DOMAIN Tree |-> <<0, Tree[i]>>]) = B
            /\ Bars0(d, n) = B           \* Prim's way, for traces of many points
OneComponent == Full => \A k \in 0..K : EssBars(P, d, n, k) = (IF k = 0 THEN OnlyComponent(n) ELSE [x \in {} |-> 0])
Sane == Full => \A k \in 0..K : LET B == Bars(P, d, n, k) IN \A q \in DOMAIN B : q[1] <= q[2] /\ B[q] > 0

Emit == Full => PrintT(ToJson([n |-> n, d |-> d]))
================================================================================
