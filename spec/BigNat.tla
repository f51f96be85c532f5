-------------------------------- MODULE BigNat ---------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian digits base 1000, *)
(* without leading (trailing in the tuple) zeros; <<>> is zero.                  *)
EXTENDS Integers, Sequences

BB == 1000

RECURSIVE BStrip(_)
BStrip(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BStrip(SubSeq(a, 1, Len(a) - 1))

BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BCarry(_, _, _)
\* s: digits possibly >= BB
BCarry(s, i, car) ==
  IF i > Len(s) THEN (IF car = 0 THEN <<>> ELSE <<car % BB>> \o BCarry(s, i + 1, car \div BB))
  ELSE LET x == s[i] + car IN <<x % BB>> \o BCarry(s, i + 1, x \div BB)

BMaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
BAdd(a, b) == BStrip(BCarry([i \in 1..BMaxLen(a, b) |-> BDig(a, i) + BDig(b, i)], 1, 0))

RECURSIVE BConv(_, _, _, _)
BConv(a, b, k, i) ==   \* sum of a[i] b[k+1-i]
  IF i > k THEN 0 ELSE BDig(a, i) * BDig(b, k + 1 - i) + BConv(a, b, k, i + 1)
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BStrip(BCarry([k \in 1..(Len(a) + Len(b) - 1) |-> BConv(a, b, k, 1)], 1, 0))

\* -1, 0, 1
RECURSIVE BCmpR(_, _, _)
BCmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpR(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpR(a, b, Len(a))

\* a - b for a >= b
RECURSIVE BBorrow(_, _, _, _)
BBorrow(a, b, i, bor) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - BDig(b, i) - bor
       IN  IF x < 0 THEN <<x + BB>> \o BBorrow(a, b, i + 1, 1) ELSE <<x>> \o BBorrow(a, b, i + 1, 0)
BSub(a, b) == BStrip(BBorrow(a, b, 1, 0))

\* signed: <<sign, magnitude>>, sign in {-1, 0, 1}
SMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN <<0, <<>>>> ELSE <<x[1] * y[1], BMul(x[2], y[2])>>
SAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN <<x[1], BAdd(x[2], y[2])>>
  ELSE LET k == BCmp(x[2], y[2]) IN
       IF k = 0 THEN <<0, <<>>>> ELSE IF k > 0 THEN <<x[1], BSub(x[2], y[2])>> ELSE <<y[1], BSub(y[2], x[2])>>
SNeg(x) == <<-x[1], x[2]>>

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BFromInt(n \div BB)
SFromInt(n) == IF n = 0 THEN <<0, <<>>>> ELSE IF n < 0 THEN <<-1, BFromInt(-n)>> ELSE <<1, BFromInt(n)>>
================================================================================
