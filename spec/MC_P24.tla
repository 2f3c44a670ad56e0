------------------------------- MODULE MC_P24 -------------------------------
EXTENDS Spin, IOUtils
Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "vertex"
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
Ps == {<<0, 0, 0, 1>>, <<1, -1, 1, 2>>, <<2, 1, 0, 3>>} \cup IF Deep THEN {<<0, -2, 2, 3>>, <<0, 0, 0, 2>>, <<-1, 0, 2, 3>>, <<2, 2, -2, 4>>, <<2, 2, 1, 5>>} ELSE {}
Qs == {<<1, 0, 2, -1>>, <<-1, 2, 1, 1>>} \cup IF Deep THEN {<<2, -1, 0, 1>>, <<0, 0, 1, 0>>, <<1, 1, 1, 1>>} ELSE {}
\* momenta for which half the difference, the photon, has a momentum of integer size
PQr == {<<<<0, 0, 0, 2>>, <<-2, 4, 4, 1>>>>, <<<<1, -1, 1, 2>>, <<0, 1, -1, 1>>>>, <<<<2, 1, 0, 3>>, <<2, 4, -4, 1>>>>}
\* spin tensors: dense ones and single components
V4 == {<<<<1, 0>>, <<-1, 1>>, <<2, 0>>, <<0, 1>>>>, <<<<0, 2>>, <<1, 0>>, <<1, -1>>, <<-1, 0>>>>} \cup IF Deep THEN {<<<<1, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 0>>>>} ELSE {}
T16 == {LET u == <<2, -1, 1, 1>> v == <<1, 0, -1, 2>> IN [k \in 1..16 |-> LET i == (k - 1) \div 4 + 1 j == ((k - 1) % 4) + 1 IN <<u[i] * v[j] + v[i] * u[j], IF i + j = 4 THEN 1 ELSE 0>>]}
       \cup IF Deep THEN {[k \in 1..16 |-> <<IF k \in {2, 5} THEN 1 ELSE 0, IF k \in {12, 15} THEN 2 ELSE IF k = 6 THEN -1 ELSE 0>>]} ELSE {}
R16 == {[k \in 1..16 |-> <<((k * 7) % 5) - 2, ((k * 3) % 4) - 1>>]} \cup IF Deep THEN {[k \in 1..16 |-> <<IF k = 7 THEN 1 ELSE 0, IF k = 9 THEN 1 ELSE 0>>]} ELSE {}
S1s == {<<<<2, -1>>>>} \cup IF Deep THEN {<<<<1, 0>>>>} ELSE {}
Ins(k) == CASE k = "S" -> S1s [] k \in {"V", "f"} -> V4 [] k = "T" -> T16 [] k = "r" -> R16
VOps(S) == UNION {UNION {{[f |-> "vertex", x |-> x, p |-> p, q |-> q, a |-> a, b |-> b, live |-> lv] : a \in Ins(x[3]), b \in Ins(x[4]), lv \in {FALSE}} : p \in Ps, q \in Qs} : x \in S \ Radiative}
           \cup UNION {UNION {{[f |-> "vertex", x |-> x, p |-> w[1], q |-> w[2], a |-> a, b |-> b, live |-> FALSE] : a \in Ins(x[3]), b \in Ins(x[4])} : w \in PQr} : x \in S \cap Radiative}
Part1(S, k) == IF Part = k THEN S ELSE {}
Obj == {"L1", "L2", "S1", "S2", "F", "Fb", "R", "Rb", "slash", "bar", "gt", "gamma"}
States == {<<0, 0, 0, 1>>, <<0, 0, 3, 5>>, <<0, 0, -3, 5>>, <<4, 0, 0, 5>>, <<-4, 0, 0, 5>>, <<0, 3, 0, 5>>, <<0, -3, 0, 5>>, <<1, 2, 2, 5>>, <<2, -1, -2, 5>>, <<-2, 2, -1, 5>>, <<-1, -2, 2, 5>>, <<3, 0, 4, 13>>, <<3, 0, -4, 13>>, <<0, 0, -4, 5>>, <<-2, 3, -6, 25>>}
Light == {<<0, 0, 3, 3>>, <<0, 0, -3, 3>>, <<4, 0, 0, 4>>, <<0, -2, 0, 2>>, <<1, 2, 2, 3>>, <<2, -1, -2, 3>>, <<-2, 3, -6, 7>>, <<3, 0, -4, 5>>}
Kinds == {<<"p+", "f">>, <<"pbar-", "F">>, <<"mu+", "F">>, <<"Lambda0", "f">>}
Key(o) == Len(o.x[1]) + 3 * o.p[1] + 5 * o.p[4] + 7 * o.q[1] + 11 * o.q[2] + 2 * o.b[1][1] + 3 * o.a[1][2] + (IF o.x[1] \in Odd THEN 1 ELSE 0) + (IF o.x[1] \in AntiNames THEN 2 ELSE 0)
OpsOf(s) == IF s.last # <<>> THEN {} ELSE
          Part1({o \in VOps(Names) : Key(o) % Shards = Shard}, "vertex")
          \cup Part1({[f |-> "object", n |-> n, p |-> p, q |-> q, r |-> <<0, 0, 0, 0>>] : n \in Obj, p \in Ps, q \in Qs}
                     \cup {[f |-> "object", n |-> n, p |-> p, q |-> q, r |-> r] : n \in {"three", "three0"}, p \in Ps, q \in Qs, r \in Qs}
                     \cup {[f |-> "pol", n |-> k[1], k |-> k[2], basis |-> b, pol |-> h1, p |-> p] : k \in Kinds, b \in {"Weyl", "Dirac"}, h1 \in {-1, 1}, p \in States}
                     \cup {[f |-> "pol", n |-> n, k |-> "v", basis |-> b, pol |-> h1, p |-> p] : n \in {"rho(770)0", "K*(892)0"}, b \in {"Weyl", "Dirac"}, h1 \in {-1, 0, 1}, p \in States}
                     \cup {[f |-> "pol", n |-> "gamma0", k |-> "g", basis |-> "Weyl", pol |-> h1, p |-> p] : h1 \in {-1, 1}, p \in Light}, "object")
Checked(s, o) == LET r == Step(s, o) IN IF o.f # "vertex" \/ Laws(r.s) THEN r ELSE Assert(FALSE, o)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- Spin0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
