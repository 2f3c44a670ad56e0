------------------------------ MODULE Strings ------------------------------
(* Character-level operators on strings, shared by the text-processing       *)
(* parts of the specification.                                               *)
EXTENDS Integers, Sequences, TLC
Ch(s, i) == SubSeq(s, i, i)
Sub(s, a, b) == IF a > b THEN "" ELSE SubSeq(s, a, b)
Rest(s, i) == Sub(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ Sub(s, 1, Len(p)) = p
\* positions (1-based) at which p occurs in s
Occ(s, p) == {i \in 1..(Len(s) - Len(p) + 1) : Sub(s, i, i + Len(p) - 1) = p}
Contains(s, p) == Occ(s, p) # {}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
First(s, p) == MinOf(Occ(s, p))
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E k \in 1..10 : Digits[k] = c
DigitVal(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
RECURSIVE NatVal(_, _, _)
NatVal(s, i, acc) == IF i > Len(s) THEN acc ELSE NatVal(s, i + 1, 10 * acc + DigitVal(Ch(s, i)))
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
IsInt(s) == AllDigits(s) \/ (Len(s) > 1 /\ Ch(s, 1) \in {"-", "+"} /\ AllDigits(Rest(s, 2)))
IntVal(s) == IF Ch(s, 1) = "-" THEN -NatVal(s, 2, 0) ELSE IF Ch(s, 1) = "+" THEN NatVal(s, 2, 0) ELSE NatVal(s, 1, 0)
RECURSIVE JoinWith(_, _)
JoinWith(q, d) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o d \o JoinWith(Tail(q), d)
=============================================================================
