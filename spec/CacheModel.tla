------------------------------ MODULE CacheModel --------------------------------
(* The caching algorithm, step by step: requests to a cache of a matrix, to the  *)
(* product of the cache with itself, and to a cache of that product, through     *)
(* iterators that live at the same time.  Every interleaving is explored;        *)
(* its steps are conjoined with those of CacheMachine and never disabled, and each*)
(* transition is printed as an implementation test.                              *)
EXTENDS CacheMachine, Json
CONSTANTS P, Iters, MaxLen, Terms0

VARIABLES cached,    \* columns held by the first cache
          cached2,   \* columns held by the cache of the product
          algo,      \* iterator -> [items: terms left, right: right terms left (product iterators)]
          hist
mvars == <<p, regs, root, use, cnt, memo, its, cached, cached2, algo, hist>>
View == <<p, cnt, memo, its, cached, cached2, algo>>

\* registers: 1 recorder, 2 cache of 1, 3 product of 2 with itself, 4 recorder of 3, 5 cache of 4
Cols == DOMAIN Terms0
Base0 == VStore(1, Terms0, Cols, FALSE)
Prod0 == VProd(Base0, Base0)

Init == /\ p = P
        /\ regs = <<Base0, Base0, Prod0, Prod0, Prod0>>
        /\ root = <<1, 1, 3, 4, 4>>
        /\ use = <<1, -2, -2, 1, -2>>
        /\ cnt = [y \in {} |-> 0] /\ memo = [y \in {} |-> 0] /\ its = [y \in {} |-> 0]
        /\ cached = {} /\ cached2 = {} /\ algo = [i \in {} |-> 0] /\ hist = <<>>

Scale(c, t) == [k \in DOMAIN t |-> <<FMul(p, t[k][1], c), t[k][2]>>]
\* run a product iterator up to its next item: [items, right, cached, q]
RECURSIVE Pull(_)
Pull(s) ==
  IF s.items # <<>> \/ s.right = <<>> THEN s
  ELSE LET c == s.right[1][1]
           x == s.right[1][2]
       IN Pull([items |-> Scale(c, Terms0[x]), right |-> Tail(s.right), cached |-> s.cached \cup {x},
                q |-> IF x \in s.cached THEN s.q ELSE Append(s.q, <<1, x>>)])
RECURSIVE All(_, _)
All(s, acc) == LET n == Pull(s)
               IN IF n.items = <<>> THEN [n EXCEPT !.items = acc]
                  ELSE All([n EXCEPT !.items = Tail(n.items)], Append(acc, Head(n.items)))
\* reading column x of the cache 2: terms, cached', requests
Read2(x) == [t |-> Terms0[x], ca |-> cached \cup {x}, q |-> IF x \in cached THEN <<>> ELSE <<<<1, x>>>>]

Log(e) == hist' = Append(hist, e)

OpenA(i, m, x) ==
  /\ i \notin DOMAIN its
  /\ CASE m = 2 -> LET r == Read2(x)
                   IN /\ cached' = r.ca /\ UNCHANGED cached2
                      /\ algo' = (i :> [items |-> r.t, right |-> <<>>]) @@ algo
                      /\ Open(i, m, x, r.q)
       [] m = 3 -> LET r == Read2(x)
                   IN /\ cached' = r.ca /\ UNCHANGED cached2
                      /\ algo' = (i :> [items |-> <<>>, right |-> r.t]) @@ algo
                      /\ Open(i, m, x, r.q)
       [] m = 5 -> IF x \in cached2
                   THEN /\ UNCHANGED <<cached, cached2>>
                        /\ algo' = (i :> [items |-> All([items |-> <<>>, right |-> Terms0[x], cached |-> cached, q |-> <<>>], <<>>).items,
                                          right |-> <<>>]) @@ algo
                        /\ Open(i, m, x, <<>>)
                   ELSE LET r == Read2(x)
                            a == All([items |-> <<>>, right |-> r.t, cached |-> r.ca, q |-> r.q], <<>>)
                        IN /\ cached' = a.cached /\ cached2' = cached2 \cup {x}
                           /\ algo' = (i :> [items |-> a.items, right |-> <<>>]) @@ algo
                           /\ Open(i, m, x, <<<<4, x>>>> \o a.q)
  /\ Log([op |-> "open", i |-> i, m |-> m, x |-> x])
NextA(i) ==
  /\ i \in DOMAIN its
  /\ LET s == Pull([items |-> algo[i].items, right |-> algo[i].right, cached |-> cached, q |-> <<>>])
     IN /\ cached' = s.cached /\ UNCHANGED cached2
        /\ Advance(i, IF s.items = <<>> THEN <<>> ELSE <<Head(s.items)>>, s.q)
        /\ algo' = IF s.items = <<>> THEN [j \in DOMAIN algo \ {i} |-> algo[j]]
                   ELSE [algo EXCEPT ![i] = [items |-> Tail(s.items), right |-> s.right]]
  /\ Log([op |-> "next", i |-> i])
DropA(i) ==
  /\ i \in DOMAIN its /\ Drop(i, <<>>)
  /\ algo' = [j \in DOMAIN algo \ {i} |-> algo[j]] /\ UNCHANGED <<cached, cached2>>
  /\ Log([op |-> "drop", i |-> i])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E i \in Iters, m \in {2, 3, 5}, x \in Cols : OpenA(i, m, x)
           \/ \E i \in Iters : NextA(i) \/ DropA(i)
Spec == Init /\ [][Next]_mvars

\* CacheMachine's actions are conjoined above, so a step they forbid would disable NextA:
CanGoOn == Len(hist) < MaxLen =>
  \A i \in Iters : IF i \in DOMAIN its THEN ENABLED NextA(i) /\ ENABLED DropA(i)
                   ELSE \A m \in {2, 3, 5}, x \in Cols : ENABLED OpenA(i, m, x)
AtMostOnce == CountsOK(cnt, use)
Emit == PrintT(ToJson(hist'))
================================================================================
