------------------------------- MODULE HeapModel -------------------------------
(* Design model of C02: one heap driven by every operation, together with       *)
(*  - the ghost variable form: the formal sum, maintained algebraically;        *)
(*  - the coalescing loop of pop_pivot, stepwise (pc = "loop"), over a heap     *)
(*    which only guarantees that its top is some greatest term.                 *)
EXTENDS ColumnHeap
CONSTANTS Rows,        \* the row indices
          Filt(_),     \* filtration of a row
          P, MaxSize

VARIABLES form,        \* key -> non-zero total
          pc, work,    \* pop loop: work = [key, sum, bag]; sum = 0: no coefficient
          fresh        \* the last operation was clone_pivot
mvars == <<p, bags, form, pc, work, fresh>>

KeyOf(r) == Key(r, Filt(r))
Coefs == 1..(P - 1)
B == bags[1]
NoWork == [key |-> <<0, 0>>, sum |-> 0, bag |-> NoTerms, cloning |-> FALSE]

Init == p = P /\ bags = <<NoTerms>> /\ form = VEmpty /\ pc = "idle" /\ work = NoWork /\ fresh = FALSE

AddOne == /\ pc = "idle" /\ Size(B) < MaxSize
          /\ \E r \in Rows, c \in Coefs :
               /\ AddTerms(1, <<<<c, r, Filt(r)>>>>)
               /\ form' = VAdd(p, form, (KeyOf(r) :> c))
          /\ fresh' = FALSE /\ UNCHANGED <<pc, work>>

RemoveOne(b, k, c) ==
  LET m == b[k]
      m2 == IF m[c] > 1 THEN [m EXCEPT ![c] = @ - 1] ELSE [x \in DOMAIN m \ {c} |-> m[x]]
  IN  IF DOMAIN m2 = {} THEN [x \in DOMAIN b \ {k} |-> b[x]] ELSE [b EXCEPT ![k] = m2]

\* let first_entry = self.heap.pop()?
StartPop == /\ pc = "idle" /\ \E cl \in BOOLEAN :
              IF DOMAIN B = {} THEN UNCHANGED <<p, bags, form, pc, work>> /\ fresh' = cl
              ELSE LET k == KMax(DOMAIN B) IN
                   \E c \in DOMAIN B[k] :
                      /\ work' = [key |-> k, sum |-> c, bag |-> RemoveOne(B, k, c), cloning |-> cl]
                      /\ pc' = "loop" /\ fresh' = FALSE /\ UNCHANGED <<p, bags, form>>

\* the loop of pop_pivot
Loop == /\ pc = "loop" /\ UNCHANGED <<p, bags, form, fresh>>
        /\ IF DOMAIN work.bag = {} THEN pc' = "done" /\ UNCHANGED work
           ELSE LET k == KMax(DOMAIN work.bag) IN
                IF k # work.key /\ work.sum # 0 THEN pc' = "done" /\ UNCHANGED work
                ELSE \E c \in DOMAIN work.bag[k] :
                       /\ work' = [work EXCEPT !.key = k,
                                               !.sum = FAdd(p, c, IF k # work.key THEN 0 ELSE @),
                                               !.bag = RemoveOne(@, k, c)]
                       /\ UNCHANGED pc

\* report; clone_pivot pushes the term back
Finish == /\ pc = "done" /\ pc' = "idle" /\ work' = NoWork /\ UNCHANGED p
          /\ LET res == IF work.sum = 0 THEN <<>> ELSE <<<<work.sum, work.key[2], work.key[1]>>>> IN
             /\ Assert(res = PivOpt(p, B), <<"pop reports", res, PivOpt(p, B)>>)
             /\ Assert(work.bag = Popped(p, B), "pop leaves the wrong terms")
             /\ IF work.cloning
                THEN ClonePivot(1, res) /\ form' = form
                     /\ Assert(bags'[1] = IF res = <<>> THEN work.bag ELSE TermsAdd(work.bag, work.key, work.sum), "clone")
                ELSE Pop(1, res) /\ form' = IF res = <<>> THEN form ELSE [k \in DOMAIN form \ {work.key} |-> form[k]]
             /\ fresh' = work.cloning

Next == AddOne \/ StartPop \/ Loop \/ Finish
Spec == Init /\ [][Next]_mvars

\* the bag represents the formal sum
Represents == \A k \in {KeyOf(r) : r \in Rows} :
                (IF k \in DOMAIN B THEN Total(p, B, k) ELSE 0) = VGet(p, form, k)
\* reported entries are leading terms of the formal sum
Leading == PivOpt(p, B) = IF DOMAIN form = {} THEN <<>>
                          ELSE LET k == KMax(DOMAIN form) IN <<<<form[k], k[2], k[1]>>>>
\* after copying the pivot only the pivot is shown
PeekFresh == fresh /\ pc = "idle" => PeekOpts(p, B) = {PivOpt(p, B)}
\* draining lists strictly decreasing keys, the whole sum
DrainOK == LET d == DrainN(p, B, Size(B) + 1, <<>>)[1] IN
           /\ \A i \in 1..(Len(d) - 1) : KLess(Key(d[i + 1][2], d[i + 1][3]), Key(d[i][2], d[i][3]))
           /\ {<<d[i][2], d[i][1]>> : i \in DOMAIN d} = {<<k[2], form[k]>> : k \in DOMAIN form}
DrainFastOK == \A n \in 0..(Size(B) + 1) : DrainFast(p, B, n) = DrainN(p, B, n, <<>>)
================================================================================
