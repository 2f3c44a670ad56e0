------------------------------- MODULE MC_P17 -------------------------------
(* P17: complete graph of short histories on small lists, and lists of every *)
(* length around the lane boundaries.                                        *)
EXTENDS Events, IOUtils
VARIABLES st, h
Ev(i) == [d |-> [k \in 1..(4 * NP) |-> ((17 * i + 7 * k * k) % 23) - 11], w |-> i + 1, g |-> CASE i % 3 = 0 -> 1 [] i % 3 = 1 -> 2 [] i % 3 = 2 -> 4]
Evs(n) == [i \in 1..n |-> Ev(i)]
Part == IOEnv.PART
D == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
Ls == {"A", "B"}
Subs == {<<0>>, <<2>>, <<0, 1>>, <<2, 0>>, <<1, 2>>, <<0, 1, 2>>, <<2, 1, 0>>, <<>>}
Obs(s) == {[f |-> "dump", l |-> l] : l \in Ls} \cup {[f |-> "sums", l |-> "A"]}
Lists(s) ==
   {[f |-> "push", l |-> l, e |-> Ev(i)] : l \in Ls, i \in {1, 5}} \cup {[f |-> "emplace", l |-> "A", e |-> Ev(2)]} \cup {[f |-> "fill", l |-> "A", es |-> Evs(3)]}
   \cup {[f |-> "add", l |-> x[1], m |-> x[2]] : x \in {<<"A", "B">>, <<"B", "A">>, <<"A", "A">>}} \cup {[f |-> "copy", l |-> "A", m |-> "B"]}
   \cup {[f |-> "erase", l |-> "A", i |-> i, j |-> j] : i \in {x \in {0, 1} : x <= Len(s.A)}, j \in {y \in {1, 2, Len(s.A)} : y <= Len(s.A) /\ y >= 1}}
   \cup {[f |-> "filter", l |-> "A", t |-> t] : t \in {3, 6}} \cup {[f |-> "clear", l |-> "A"], [f |-> "resize", l |-> "A", n |-> 2]}
   \cup (IF s.A = <<>> THEN {} ELSE LET n == Len(s.A) - 1 IN {[f |-> "setw", l |-> "A", i |-> n, w |-> -3, g |-> 2], [f |-> "setw1", l |-> "A", i |-> 0, w |-> 7], [f |-> "setg", l |-> "A", i |-> n, g |-> 8]}
      \cup {[f |-> "swap", l |-> "A", i |-> n, a |-> 0, b |-> 2], [f |-> "reorder", l |-> "A", i |-> 0, p |-> <<1, 2, 0>>], [f |-> "reorder", l |-> "A", i |-> n, p |-> <<1, 0, 2>>]}
      \cup {[f |-> "setp", l |-> "A", i |-> n, a |-> 1, q |-> <<1, -2, 3, 9>>], [f |-> "setx", l |-> "A", i |-> 0, k |-> 11, x |-> -7], [f |-> "setall", l |-> "A", i |-> 0, d |-> Ev(4).d]}
      \cup {[f |-> "inv", l |-> "A", i |-> n, sub |-> b] : b \in Subs}) \cup {[f |-> "scale", l |-> "A", k |-> 2]}
Lengths == {0, 1, 2, 3, 4, 5, 7, 8, 9}
Simd(s) ==
   (IF s.A = <<>> THEN {[f |-> "fill", l |-> "A", es |-> Evs(n)] : n \in Lengths \ {0}} ELSE {}) \cup {[f |-> "tosimd", l |-> "A"]} \cup {[f |-> "sresize", n |-> n] : n \in {1, 4, 6}}
   \cup {[f |-> x] : x \in {"sdump", "ssum", "sclear"}} \cup {[f |-> "sscale", k |-> 3]} \cup {[f |-> "sfirst", n |-> n] : n \in {x \in {1, 2, 4, 5} : x <= Len(s.S)}}
   \cup (IF s.S = <<>> THEN {} ELSE LET b == (Len(s.S) - 1) \div 4 IN LET m == Len(s.S) - 4 * b IN {[f |-> "ssetw", b |-> b, ws |-> [i \in 1..4 |-> IF i > m THEN 0 ELSE 2 * i + 1], gs |-> [i \in 1..4 |-> 2]],
        [f |-> "ssetg", b |-> 0, gs |-> <<8, 4, 2, 1>>]})
   \cup (IF Len(s.A) > 2 THEN {[f |-> "erase", l |-> "A", i |-> 0, j |-> 1], [f |-> "scale", l |-> "A", k |-> -1]} ELSE {})
Cache(s) ==
   (IF s.A = <<>> THEN {[f |-> "fill", l |-> "A", es |-> Evs(n)] : n \in {1, 3, 4, 6}} ELSE {}) \cup {[f |-> "tosimd", l |-> "A"]}
   \cup (IF s.A # <<>> THEN {[f |-> "calloc", l |-> "A", al |-> al, n |-> n] : al \in {"AoS", "SoA"}, n \in {1, 3, 4}} \cup {[f |-> "scale", l |-> "A", k |-> 2]} ELSE {})
   \cup (IF s.S # <<>> THEN {[f |-> "calloc", l |-> "S", al |-> al, n |-> n] : al \in {"AoS", "SoA"}, n \in {2, 4}} \cup {[f |-> "sscale", k |-> 3]} ELSE {})
   \cup (IF s.c.src = "-" THEN {} ELSE {[f |-> x, k |-> k] : x \in {"cupdate", "cread"}, k \in 1..s.c.n})
OpsOf(s) == CASE Part = "lists" -> Lists(s) \cup Obs(s) [] Part = "simd" -> Simd(s) \cup {[f |-> "dump", l |-> "A"]} [] Part = "cache" -> Cache(s)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- D
Inv == \A l \in {"A", "B", "S"} : \A i \in DOMAIN st[l] : Len(st[l][i].d) = 4 * NP
=============================================================================
