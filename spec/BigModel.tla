------------------------------- MODULE BigModel --------------------------------
EXTENDS BigNat
VARIABLES a, b
Vals == {x * y : x \in {0, 1, 7, 999, 1000, 1001, 31622}, y \in {1, 13, 997, 1000, 30011}}
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
F(n) == BFromInt(n)
Agree == /\ BAdd(F(a), F(b)) = F(a + b)
         /\ (a < 46000 /\ b < 46000 => BMul(F(a), F(b)) = F(a * b))
         /\ BMul(F(a), F(b)) = BMul(F(b), F(a))
         /\ (a >= b => BSub(F(a), F(b)) = F(a - b))
         /\ BCmp(F(a), F(b)) = IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
         /\ SAdd(SFromInt(a), SFromInt(-b)) = SFromInt(a - b)
         /\ BMul(BAdd(F(a), F(b)), F(b)) = BAdd(BMul(F(a), F(b)), BMul(F(b), F(b)))
================================================================================
