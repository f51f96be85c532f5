------------------------------ MODULE FieldModel -------------------------------
(* Design model of C01: the operations of Fld satisfy the field axioms.         *)
(* One state per triple of elements; rationals with |n|,d <= QB.                *)
EXTENDS FieldMachine
CONSTANT QB

Elems(q) == IF q = 0 THEN {QNorm(n, d) : n \in (-QB)..QB, d \in 1..QB}
            ELSE 0..(q - 1)

Init == /\ p \in Primes \cup {0}
        /\ regs \in {<<x>> : x \in Elems(p)}
Next == /\ Len(regs) < 3
        /\ \E x \in Elems(p) : regs' = Append(regs, x)
        /\ UNCHANGED p
Spec == Init /\ [][Next]_fvars

Nz(x) == x # FZero(p)

Axioms ==
  LET z == FZero(p)  e == FOne(p)  a == regs[1] IN
  /\ e # z
  /\ FAdd(p, a, z) = a /\ FAdd(p, z, a) = a
  /\ FMul(p, a, e) = a
  /\ FAdd(p, a, FNeg(p, a)) = z
  /\ Nz(a) => (FMul(p, a, FInv(p, a)) = e /\ FIsNZ(p, a) /\ FIsNZ(p, FInv(p, a)) /\ FIsNZ(p, FNeg(p, a)))
  /\ Len(regs) >= 2 =>
       LET b == regs[2] IN
       /\ FAdd(p, a, b) = FAdd(p, b, a)
       /\ FMul(p, a, b) = FMul(p, b, a)
       /\ Nz(a) /\ Nz(b) => Nz(FMul(p, a, b))
       /\ Nz(FAdd(p, a, b)) => FIsNZ(p, FAdd(p, a, b))
       /\ FAdd(p, a, b) = z <=> b = FNeg(p, a)
       /\ Nz(FMul(p, a, b)) => FIsNZ(p, FMul(p, a, b))
  /\ Len(regs) >= 3 =>
       LET b == regs[2]  c == regs[3] IN
       /\ FAdd(p, FAdd(p, a, b), c) = FAdd(p, a, FAdd(p, b, c))
       /\ FMul(p, FMul(p, a, b), c) = FMul(p, a, FMul(p, b, c))
       /\ FMul(p, a, FAdd(p, b, c)) = FAdd(p, FMul(p, a, b), FMul(p, a, c))
================================================================================
