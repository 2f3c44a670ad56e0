-------------------------------- MODULE Gen --------------------------------
(* Event generation.                                                         *)
(* The generator draws blocks of candidates from phase space.  Candidate k   *)
(* has model value V(k), was proposed with density G(k) and carries weight   *)
(* W(k); U(d) / 97 is the d-th random number.  A candidate is accepted with  *)
(* probability proportional to V / G: against 3/2 of the largest ratio in    *)
(* the first block of the request (or 1 without normalisation), one random   *)
(* number per candidate in order, until as many as requested are added after *)
(* what the list already holds, or a block yields none.                      *)
(* Dice: DiscreteDistribution gives index i on exactly the share w_i of an   *)
(* even grid of random numbers.  Kin / Flat: every phase-space event is a    *)
(* decay at rest into the given final state, and events weighted with the    *)
(* inverse of the density they report are uniform in phase space.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
V(k) == LET x == (5 * k + k \div 7) % 9 IN IF x < 2 THEN 0 ELSE x - 1
G(k) == CASE k % 3 = 0 -> 1 [] k % 3 = 1 -> 2 [] k % 3 = 2 -> 4
W(k) == 1 + ((k \div 2) % 3)
U(d) == 1 + ((31 * d + d \div 5) % 96)
R(k) == (4 * V(k)) \div G(k)                       \* 4 V / G, exactly
RECURSIVE GGcd(_, _)
GGcd(a, b) == IF b = 0 THEN a ELSE GGcd(b, a % b)
Fr(n, d) == LET g == GGcd(n, d) IN IF d \div g = 1 THEN ToString(n \div g) ELSE ToString(n \div g) \o "/" \o ToString(d \div g)
Entry(k, pdf) == <<ToString(k), ToString(W(k)), pdf>>
MaxR(a, b) == LET S == {R(k) : k \in a..b} IN CHOOSE x \in S : \A y \in S : y <= x
Pass(m, norm, k, d) == IF norm THEN 194 * R(k) > 3 * m * U(d) ELSE 97 * R(k) > 4 * U(d)
\* one block: candidates k .. last, random number d, still missing n; gives [d, out, n]
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(k, last, d, n, m, norm, out) ==
   IF k > last \/ n = 0 THEN [d |-> d, out |-> out, n |-> n]
   ELSE IF Pass(m, norm, k, d) THEN Scan(k + 1, last, d + 1, n - 1, m, norm, Append(out, Entry(k, ToString(V(k))))) ELSE Scan(k + 1, last, d + 1, n, m, norm, out)
RECURSIVE Fill(_, _, _, _, _, _, _)
Fill(at, d, b, n, m, norm, out) ==
   IF n = 0 THEN [at |-> at, d |-> d, out |-> out]
   ELSE LET mm == TLCEval(IF m = 0 THEN MaxR(at + 1, at + b) ELSE m)
            r == TLCEval(Scan(at + 1, at + b, d, n, mm, norm, out)) IN
        IF r.out = out THEN [at |-> at + b, d |-> r.d, out |-> out] ELSE Fill(at + b, r.d, b, r.n, mm, norm, r.out)
Raw(at, n) == [i \in 1..n |-> Entry(at + i, ToString(G(at + i)))]
RECURSIVE SumW(_)
SumW(ws) == IF ws = <<>> THEN 0 ELSE ws[1] + SumW(Tail(ws))
Start == [at |-> 0, d |-> 1, b |-> 4, norm |-> TRUE, l |-> <<>>]
Apply(s, o) ==
   CASE o.f = "block" -> [s |-> [s EXCEPT !.b = o.n], o |-> "ok"]
     [] o.f = "norm" -> [s |-> [s EXCEPT !.norm = o.v], o |-> "ok"]
     [] o.f = "fill" -> LET r == TLCEval(Fill(s.at, s.d, s.b, o.n, 0, s.norm, s.l)) IN [s |-> [s EXCEPT !.at = r.at, !.d = r.d, !.l = r.out], o |-> r.out]
     [] o.f = "make" -> LET r == TLCEval(Fill(s.at, s.d, s.b, o.n, 0, s.norm, <<>>)) IN [s |-> [s EXCEPT !.at = r.at, !.d = r.d], o |-> r.out]
     [] o.f = "raw" -> [s |-> [s EXCEPT !.at = @ + o.n], o |-> Raw(s.at, o.n)]
     [] o.f = "dice" -> LET t == SumW(o.ws) IN [s |-> s, o |-> <<[i \in DOMAIN o.ws |-> ToString(o.ws[i] * Len(o.ws))], [i \in DOMAIN o.ws |-> Fr(o.ws[i], t)]>>]
     [] o.f = "kin" -> [s |-> s, o |-> "ok"]
     [] o.f = "flat" -> [s |-> s, o |-> <<>>]
=============================================================================
