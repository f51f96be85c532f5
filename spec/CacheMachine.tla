----------------------------- MODULE CacheMachine -------------------------------
(* C05.  Column caches under arbitrary histories of requests with live iterators.*)
(* Registers are matrix views (OracleMachine).  Some registers are user matrices *)
(* that record requests ("recorders").  Every action carries q, the requests     *)
(* <<recorder, column>> made to recorders while it ran.                          *)
(*   root[m]  the register whose column listings m must repeat                   *)
(*   use[m]   for a recorder: number of caches directly on top, -1: used without *)
(*   cnt      requests made so far;   memo: listing (bag) seen for <<root, col>> *)
(*   its      live iterators: register, column, terms delivered                  *)
EXTENDS OracleMachine
VARIABLES root, use, cnt, memo, its
cvars == <<p, regs, root, use, cnt, memo, its>>

NoIt == [m |-> 0, x |-> 0, got |-> <<>>]
CountIn(q, y) == Cardinality({i \in DOMAIN q : q[i] = y})

\* a recorder all of whose users are caches is asked at most once per column and cache
CountsOK(cn, us) == \A y \in DOMAIN cn : us[y[1]] >= 0 => cn[y] <= us[y[1]]

Asked(q, us) ==
  LET Y == {q[i] : i \in DOMAIN q}
  IN /\ \A y \in Y : use[y[1]] # -2 /\ y[2] \in DOMAIN regs[y[1]].cols
     /\ cnt' = [y \in Y \cup DOMAIN cnt |-> CountIn(q, y) + (IF y \in DOMAIN cnt THEN cnt[y] ELSE 0)]
     /\ CountsOK(cnt', us)

\* use[m] = -2: not a recorder
Consumed(us, S) == [m \in DOMAIN us |-> IF m \in S /\ us[m] >= 0 THEN -1 ELSE us[m]]

Build(m, r, us, q) ==       \* a new register
  /\ regs' = Append(regs, m) /\ root' = Append(root, r) /\ use' = us
  /\ Asked(q, us)
  /\ UNCHANGED <<p, memo, its>>

Next0 == Len(regs) + 1
Base(m, q)   == Build(m, Next0, Append(use, 0), q)
RecOf(k, q)  == Build(regs[k], Next0, Append(Consumed(use, {k}), 0), q)
CacheOf(k, q) == Build(regs[k], root[k],
                    Append([use EXCEPT ![k] = IF @ >= 0 THEN @ + 1 ELSE @], -2), q)
\* copy of the cache k (which may be filled): its own requests count separately
CloneOf(k, below, q) == Build(regs[k], root[k],
                           Append([use EXCEPT ![below] = IF @ >= 0 THEN @ + 1 ELSE @], -2), q)
View1(m, k, q)    == Build(m, Next0, Append(Consumed(use, {k}), -2), q)
View2(m, a, b, q) == Build(m, Next0, Append(Consumed(use, {a, b}), -2), q)

Sub(b1, b2) == \A t \in DOMAIN b1 : t \in DOMAIN b2 /\ b1[t] <= b2[t]
Key(m, x) == <<root[m], x>>
ItemOK(m, x, got) ==
  LET v == regs[m]
  IN /\ NonZeroTerms(got)
     /\ \A i \in DOMAIN got : got[i][2] \in v.rows
     /\ v.known => Sub(TermBag(got), TermBag(v.terms[x]))
DoneOK(m, x, got) ==
  /\ ListingOK(regs[m], x, got)
  /\ Key(m, x) \in DOMAIN memo => memo[Key(m, x)] = TermBag(got)
Remember(m, x, got) == memo' = (Key(m, x) :> TermBag(got)) @@ memo

Open(i, m, x, q) ==
  /\ x \in DOMAIN regs[m].cols
  /\ use' = Consumed(use, {m}) /\ Asked(q, use')
  /\ its' = (i :> [m |-> m, x |-> x, got |-> <<>>]) @@ its
  /\ UNCHANGED <<p, regs, root, memo>>
\* r = <<>> : exhausted (the iterator is dropped); r = <<term>>
Advance(i, r, q) ==
  /\ i \in DOMAIN its
  /\ Asked(q, use)
  /\ LET it == its[i]
     IN IF r = <<>>
        THEN /\ DoneOK(it.m, it.x, it.got) /\ Remember(it.m, it.x, it.got)
             /\ its' = [j \in DOMAIN its \ {i} |-> its[j]]
        ELSE /\ ItemOK(it.m, it.x, it.got \o r) /\ its' = [its EXCEPT ![i].got = @ \o r] /\ UNCHANGED memo
  /\ UNCHANGED <<p, regs, root, use>>
Drop(i, q) ==
  /\ i \in DOMAIN its /\ Asked(q, use)
  /\ its' = [j \in DOMAIN its \ {i} |-> its[j]]
  /\ UNCHANGED <<p, regs, root, use, memo>>
Column(m, x, r, q) ==
  /\ x \in DOMAIN regs[m].cols
  /\ use' = Consumed(use, {m}) /\ Asked(q, use')
  /\ DoneOK(m, x, r) /\ Remember(m, x, r)
  /\ UNCHANGED <<p, regs, root, its>>
ColumnF(m, x, r, q) ==
  /\ x \in DOMAIN regs[m].cols /\ regs[m].hasF
  /\ use' = Consumed(use, {m}) /\ Asked(q, use')
  /\ \A i \in DOMAIN r : r[i][3] = regs[m].filt[r[i][2]]
  /\ DoneOK(m, x, Strip(r)) /\ Remember(m, x, Strip(r))
  /\ UNCHANGED <<p, regs, root, its>>
Heap(m, x, r, q) ==
  /\ x \in DOMAIN regs[m].cols /\ regs[m].hasF
  /\ use' = Consumed(use, {m}) /\ Asked(q, use')
  /\ HeapOK(regs[m], x, r)
  /\ UNCHANGED <<p, regs, root, memo, its>>
Meta(m, f, b, q) ==        \* filtration values (pairs) and basis
  /\ q = <<>>
  /\ regs[m].hasF => {<<f[i][1], f[i][2]>> : i \in DOMAIN f} = {<<x, regs[m].filt[x]>> : x \in regs[m].rows}
  /\ regs[m].hasB => b = regs[m].basis
  /\ UNCHANGED cvars
\* a whole reduction of the matrix m (its result is the subject of C07 - C10)
Reduce(m, q) ==
  /\ use' = Consumed(use, {m}) /\ Asked(q, use')
  /\ UNCHANGED <<p, regs, root, memo, its>>
================================================================================
