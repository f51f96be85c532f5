------------------------------- MODULE CodecModel -------------------------------
(* Design model of the simplex index: positional numbers in base n + 1 with      *)
(* non-zero digits.  Encoding is injective over all lists and decoding by        *)
(* repeated division inverts it.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M
VARIABLES n, s
Init == n \in 1..N /\ s = <<>>
Next == Len(s) < M /\ (\E v \in 0..(n - 1) : s' = Append(s, v)) /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, s>>
RECURSIVE Enc(_)
Enc(t) == IF t = <<>> THEN 0 ELSE (t[1] + 1) + (n + 1) * Enc(Tail(t))
RECURSIVE Decode(_)
Decode(x) == IF x = 0 THEN <<>> ELSE <<(x % (n + 1)) - 1>> \o Decode(x \div (n + 1))
RoundTrip == Decode(Enc(s)) = s
NonZero == s # <<>> => Enc(s) > 0
================================================================================
