---------------------------------- MODULE Fld ----------------------------------
(* The coefficient fields of phlite.                                            *)
(* p = a prime: the field F_p, elements 0..p-1.                                 *)
(* p = 0      : the rationals, elements <<n, d>> in lowest terms, d > 0.        *)
(* Zero is part of the field here; in the code it is an absent coefficient.     *)
EXTENDS Integers, Sequences, FiniteSets

Primes == {2, 3, 5, 7, 11, 13}

AbsI(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* canonical representative of n/d, d # 0
QNorm(n, d) ==
  LET g == Gcd(AbsI(n), AbsI(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<s * (n \div g), s * (d \div g)>>

FZero(p) == IF p = 0 THEN <<0, 1>> ELSE 0
FOne(p)  == IF p = 0 THEN <<1, 1>> ELSE 1

FAdd(p, a, b) ==
  IF p = 0 THEN
     IF a[2] = b[2] THEN QNorm(a[1] + b[1], a[2])
     ELSE LET g == Gcd(a[2], b[2])
          IN  QNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
  ELSE (a + b) % p

FMul(p, a, b) ==
  IF p = 0 THEN
     LET g1 == Gcd(AbsI(a[1]), b[2])
         g2 == Gcd(AbsI(b[1]), a[2])
     IN  <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
  ELSE (a * b) % p

FNeg(p, a) == IF p = 0 THEN <<-a[1], a[2]>> ELSE (p - a) % p

FInv(p, a) ==
  IF p = 0 THEN QNorm(a[2], a[1])
  ELSE CHOOSE x \in 1..(p - 1) : (a * x) % p = 1

FSub(p, a, b) == FAdd(p, a, FNeg(p, b))

\* Is v a well-formed non-zero element ?  (data logged by the harness: <<0,0>> and -1
\* stand for values that are no element of the field)
FIsNZ(p, v) ==
  IF p = 0 THEN /\ v \in Int \X Int
                /\ v[2] > 0 /\ v[1] # 0 /\ Gcd(AbsI(v[1]), v[2]) = 1
  ELSE v \in 1..(p - 1)

\* The image of an integer
FInt(p, k) == IF p = 0 THEN <<k, 1>> ELSE k % p
================================================================================
