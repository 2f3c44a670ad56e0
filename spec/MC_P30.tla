------------------------------- MODULE MC_P30 -------------------------------
EXTENDS ErrProp, IOUtils
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Sets == << <<Par("a", "Free", 1, 2, 0, 0), Par("b", "Fix", 2, 3, 0, 0), Par("c", "Free", -3, 1, 0, 0)>>,
  <<Par("p", "Free", 2, 1, 0, 0), Par("q", "Free", 3, 0, 0, 0), Par("r", "Blind", -2, 2, 0, 0), Par("s", "Free", 1, 3, 0, 0)>>,
  <<Par("u", "Hide", 1, 1, 0, 0), Par("v", "Free", -1, 2, 0, 0)>> >>
Fun(n, v) == [l |-> [k \in 1..n |-> ((k * (v + 2)) % 5) - 2], q |-> [k \in 1..n |-> ((k + v) % 3) - 1], m |-> [k \in 1..n |-> ((k * k + v) % 3) - 1]]
Low(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF j > i THEN 0 ELSE IF i = j THEN 1 + ((i + v) % 3) ELSE ((i * j + v) % 4) - 1]]
Sq(r) == LET n == Len(r) IN [i \in 1..n |-> [j \in 1..n |-> SumUp([k \in 1..n |-> r[i][k] * r[j][k]], 1..n)]]
Lists(n) == {<<1>>, <<n>>, <<1, n>>, <<n, 1>>, [k \in 1..n |-> k]} \cup (IF n > 2 THEN {<<3, 1, 2>>, <<2, 3>>} ELSE {})
Mk(n) == {[how |-> "set"]} \cup {[how |-> "list", ks |-> k] : k \in Lists(n)} \cup {[how |-> "cov", ks |-> k, c |-> Sq(Low(Len(k), v))] : k \in Lists(n), v \in 0..1} \cup {[how |-> "result", ext |-> e, c |-> Sq(Low(n, v))] : e \in BOOLEAN, v \in 0..1}
Adds(n) == IF Deep THEN {m \in Mk(n) : m.how # "result"} ELSE {[how |-> "set"], [how |-> "list", ks |-> <<n, 1>>], [how |-> "cov", ks |-> <<n>>, c |-> <<<<4>>>>], [how |-> "cov", ks |-> <<2, 1>>, c |-> Sq(Low(2, 1))]}
N(s) == Len(s.par)
Fs(s) == {Fun(N(s), v) : v \in 0..(IF Deep THEN 5 ELSE 3)}
Pos(s, fns) == LET c == CovOf(s, fns) IN \A k \in DOMAIN fns : c[k][k] > 0
OpsOf(s) ==
  IF s.par = <<>> THEN {[f |-> "set", ps |-> Sets[i]] : i \in DOMAIN Sets}
  ELSE IF ~s.made THEN {[f |-> "make"] @@ m : m \in Mk(N(s))} \cup {[f |-> "gauss", ks |-> k, c |-> Sq(Low(Len(k), v)), r |-> Low(Len(k), v), g |-> [j \in DOMAIN k |-> (j * j + v) - 3]] : k \in Lists(N(s)), v \in 0..3}
  ELSE {[f |-> "add", of |-> m] : m \in IF Len(s.ks) <= 2 THEN Adds(N(s)) ELSE {[how |-> "list", ks |-> <<N(s)>>], [how |-> "cov", ks |-> <<2, 1>>, c |-> Sq(Low(2, 1))]}} \cup {[f |-> "reset"]}
       \cup {[f |-> "error", fn |-> g] : g \in Fs(s)}
       \cup {[f |-> "vector", fns |-> <<g, Fun(N(s), 4)>>] : g \in Fs(s)} \cup {[f |-> "covariance", fns |-> <<g, Fun(N(s), 5), Fun(N(s), 1)>>] : g \in Fs(s)}
       \cup {[f |-> "correlation", fns |-> q] : q \in {x \in {<<g, Fun(N(s), 5)>> : g \in Fs(s)} : Pos(s, x)}}
       \cup {[f |-> "combine", fns |-> q, den |-> Den(CovOf(s, q))] : q \in {x \in {<<g, Fun(N(s), 5)>> : g \in Fs(s)} : LET c == CovOf(s, x) IN c[1][1] * c[2][2] - c[1][2] * c[1][2] > 0 /\ Den(c) > 0}}
\* laws: variances are not negative (Cauchy-Schwarz for pairs), the combination is no worse than either estimate
Laws(s, o, r) ==
   /\ (o.f = "error" => r.o[1] >= 0)
   /\ (o.f = "covariance" => \A i, j \in 1..3 : r.o[1][i][j] = r.o[1][j][i] /\ r.o[1][i][j] * r.o[1][i][j] <= r.o[1][i][i] * r.o[1][j][j])
   /\ (o.f = "combine" => LET c == CovOf(s, o.fns) IN r.o[2] <= c[1][1] * o.den /\ r.o[2] <= c[2][2] * o.den /\ r.o[3] + r.o[4] = o.den)
Checked(s, o) == LET r == EStep(s, o) IN IF Laws(s, o, r) THEN r ELSE Assert(FALSE, <<s, o, r>>)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- E0, Ops <- OpsOf, Step <- Checked, Depth <- 5
=============================================================================
