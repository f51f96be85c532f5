------------------------------- MODULE FieldGen --------------------------------
(* One test per transition of FieldMachine from the state in which the          *)
(* registers hold every element of F_p and the absent coefficient (for Q: a     *)
(* fixed set of rationals).                                                     *)
EXTENDS FieldMachine, Json
VARIABLE hist
gvars == <<p, regs, hist>>
View == <<p, regs>>

e(o) == [op |-> o]
e1(o, a) == [op |-> o, a |-> a]
e2(o, a, b) == [op |-> o, a |-> a, b |-> b]

\* registers and program that fills them
ZpRegs(q) == [k \in 1..q |-> k % q]
ZpProg(q) == <<e("one")>> \o [k \in 1..(q - 1) |-> e2("add", 1, k)]
QProg == <<e("one"), e2("add", 1, 1), e2("add", 1, 2), e1("neg", 1), e1("neg", 2), e1("neg", 3),
           e1("inv", 2), e1("inv", 3), e2("mul", 2, 8), e2("mul", 3, 7), e1("neg", 7), e1("inv", 9),
           e1("neg", 9), e2("mul", 7, 8), e2("add", 14, 1), e2("add", 1, 4)>>
QRegs == <<<<1, 1>>, <<2, 1>>, <<3, 1>>, <<-1, 1>>, <<-2, 1>>, <<-3, 1>>,
           <<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 2>>, <<-1, 2>>, <<3, 2>>,
           <<-2, 3>>, <<1, 6>>, <<7, 6>>, <<0, 1>>>>

Init == /\ p \in Primes \cup {0}
        /\ regs = IF p = 0 THEN QRegs ELSE ZpRegs(p)
        /\ hist = IF p = 0 THEN QProg ELSE ZpProg(p)
N == IF p = 0 THEN Len(QRegs) ELSE p
Log(x) == hist' = Append(hist, x)
Next == /\ Len(regs) = N
        /\ \/ \E a \in 1..N : Neg(a) /\ Log(e1("neg", a))
           \/ \E a \in 1..N : Inv(a) /\ Log(e1("inv", a))
           \/ \E a, b \in 1..N :
                \/ Add(a, b) /\ Log(e2("add", a, b))
                \/ AddOpt(a, b) /\ Log(e2("addo", a, b))
                \/ Mul(a, b) /\ Log(e2("mul", a, b))
                \/ EqQ(a, b) /\ Log(e2("eq", a, b))
Spec == Init /\ [][Next]_gvars
Emit == PrintT(ToJson([p |-> p, ev |-> hist']))
\* Fermat: the inverse is a power (independent of CHOOSE in Fld)
RECURSIVE Pow(_, _, _)
Pow(q, a, n) == IF n = 0 THEN 1 ELSE (a * Pow(q, a, n - 1)) % q
Fermat == p # 0 => \A a \in 1..(p - 1) : FInv(p, a) = Pow(p, a, p - 2)
================================================================================
