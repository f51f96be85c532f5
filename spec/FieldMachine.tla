----------------------------- MODULE FieldMachine ------------------------------
(* C01.  A register machine over one coefficient field.  Registers hold field   *)
(* elements; 0 is an absent coefficient (Rust: None).  One action per operation *)
(* of the NonZeroCoefficient / Invertible traits.                               *)
EXTENDS Sparse

VARIABLES p,        \* the field
          regs      \* sequence of field elements

fvars == <<p, regs>>

NZ(k) == regs[k] # FZero(p)
Push(v) == regs' = Append(regs, v) /\ UNCHANGED p

One            == Push(FOne(p))
Add(a, b)      == NZ(a) /\ NZ(b) /\ Push(FAdd(p, regs[a], regs[b]))
AddOpt(a, b)   == NZ(a) /\ Push(FAdd(p, regs[a], regs[b]))      \* b may be absent
Mul(a, b)      == NZ(a) /\ NZ(b) /\ Push(FMul(p, regs[a], regs[b]))
Neg(a)         == NZ(a) /\ Push(FNeg(p, regs[a]))
Inv(a)         == NZ(a) /\ Push(FInv(p, regs[a]))
EqQ(a, b)      == NZ(a) /\ NZ(b) /\ UNCHANGED fvars              \* answer: regs[a] = regs[b]
================================================================================
