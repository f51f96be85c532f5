----------------------------- MODULE FieldBigTrace ------------------------------
(* C01 for rationals beyond 32 bits: a value is <<sign, numerator, denominator>> *)
(* with BigNat digits; absent = sign 0.  Every observed result must satisfy the  *)
(* defining equation of the operation, by cross multiplication.                  *)
EXTENDS BigNat, Json, IOUtils

VARIABLES regs, c, l
tvars == <<regs, c, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[c].ev
E == Ev[l]

S(v) == <<v[1], v[2]>>                    \* signed numerator
D(v) == <<1, v[3]>>
IsVal(v) == IF v[1] = 0 THEN TRUE ELSE v[1] \in {-1, 1} /\ v[2] # <<>> /\ v[3] # <<>>
QEq(u, v) == SMul(S(u), D(v)) = SMul(S(v), D(u))
QIsSum(r, a, b) ==                        \* r = a + b
  SMul(S(r), SMul(D(a), D(b))) = SMul(SAdd(SMul(S(a), D(b)), SMul(S(b), D(a))), D(r))
QIsProd(r, a, b) == SMul(S(r), SMul(D(a), D(b))) = SMul(SMul(S(a), S(b)), D(r))
QOne == <<1, <<1>>, <<1>>>>
Zero == <<0, <<>>, <<1>>>>

Init == c \in 1..Len(Trace) /\ l = 1 /\ regs = <<>>
NA == "na" \in DOMAIN E
NZ(k) == regs[k][1] # 0
Step(op) == l <= Len(Ev) /\ E.op = op /\ ~NA /\ l' = l + 1 /\ UNCHANGED c
Got(Ok(_)) == IsVal(E.r) /\ Ok(E.r) /\ regs' = Append(regs, E.r)

TOne == Step("one") /\ Got(LAMBDA r : r[1] # 0 /\ QEq(r, QOne))
\* a rational named in the script, built from one() by doubling, adding and dividing
TLit == Step("lit") /\ Got(LAMBDA r : r[1] # 0 /\ QEq(r, E.v))
TAdd == Step("add") /\ NZ(E.a) /\ NZ(E.b) /\ Got(LAMBDA r : QIsSum(r, regs[E.a], regs[E.b]))
TAddO == Step("addo") /\ NZ(E.a) /\ Got(LAMBDA r : QIsSum(r, regs[E.a], regs[E.b]))
TMul == Step("mul") /\ NZ(E.a) /\ NZ(E.b) /\ Got(LAMBDA r : r[1] # 0 /\ QIsProd(r, regs[E.a], regs[E.b]))
TNeg == Step("neg") /\ NZ(E.a) /\ Got(LAMBDA r : r[1] # 0 /\ QIsSum(Zero, r, regs[E.a]))
TInv == Step("inv") /\ NZ(E.a) /\ Got(LAMBDA r : r[1] # 0 /\ QIsProd(QOne, r, regs[E.a]))
TEq  == /\ Step("eq") /\ NZ(E.a) /\ NZ(E.b)
        /\ E.r = <<QEq(regs[E.a], regs[E.b]), ~QEq(regs[E.a], regs[E.b])>>
        /\ regs' = Append(regs, Zero)
TNa  == /\ l <= Len(Ev) /\ NA /\ l' = l + 1 /\ UNCHANGED c
        /\ CASE E.op \in {"add", "mul", "eq"} -> ~NZ(E.a) \/ ~NZ(E.b)
             [] E.op \in {"addo", "neg", "inv"} -> ~NZ(E.a)
             [] OTHER -> FALSE
        /\ regs' = Append(regs, Zero)
Accept == l = Len(Ev) + 1 /\ Trace[c].outcome = "ok" /\ UNCHANGED tvars
Next == TOne \/ TLit \/ TAdd \/ TAddO \/ TMul \/ TNeg \/ TInv \/ TEq \/ TNa \/ Accept
Spec == Init /\ [][Next]_tvars
================================================================================
