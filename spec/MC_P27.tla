------------------------------- MODULE MC_P27 -------------------------------
EXTENDS Bins, IOUtils
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "bins"
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
\* samples: points of a lattice in a scrambled order, coordinates of different spread
Point(k, n, dim, v) == [j \in 1..dim |-> LET x == ((k * (2 * j + 3 + 2 * v) + j * v) % 23) - 7 IN IF j = 1 THEN x * (1 + (v % 2)) + (x * x) \div 9 ELSE IF j = 2 THEN 2 * x + ((k * k) % (v + 2)) ELSE x * x - k]
Sample(n, dim, v) == [k \in 1..n |-> IF v < 4 THEN Point(k, n, dim, v) ELSE [j \in 1..dim |-> 10000000 + Point(k, n, dim, v)[j]]]
Cfg(dim, mn, mx, ord, kd) == [dim |-> dim, min |-> mn, max |-> mx, order |-> ord, kind |-> kd]
Mo == << <<0, 0, 1, 2>>, <<1, 0, 0, 2>>, <<-1, 1, 0, 2>>, <<0, -1, 1, 3>>, <<1, 1, 0, 3>>, <<0, 2, -1, 4>>, <<-1, 0, 2, 3>>, <<1, -1, 1, 4>>, <<2, 1, 0, 5>>, <<-1, -2, 1, 6>>, <<0, 0, -2, 7>> >>
Body(n, k, v) == [i \in 1..n |-> Mo[((k * (2 * i + v) + i * i + v) % 11) + 1]]
Bodies(n, m, v) == [k \in 1..m |-> Body(n, k, v)]
BuildsXY == {[f |-> "build", how |-> h, c |-> Cfg(dim, mn, mx, ord, "xy"), evs |-> Sample(n, dim, v)] : h \in {"data"}, dim \in 1..3, mn \in 1..3, mx \in {999, 1}, ord \in {<<>>}, n \in {2, 5, 9, 14} \cup (IF Deep THEN {6, 11, 20, 23} ELSE {}), v \in 0..2}
  \cup {[f |-> "build", how |-> h, c |-> Cfg(2, mn, mx, IF h = "data" THEN <<2, 1>> ELSE <<>>, "xy"), evs |-> Sample(n, 2, v)] : h \in {"data", "functor"}, mn \in 1..2, mx \in {999, 3, 2, 0}, n \in {9, 13, 17}, v \in 0..4}
BuildsEv == {[f |-> "build", how |-> h, c |-> Cfg(IF kd = "five" THEN 5 ELSE 2, mn, 999, <<>>, kd), evs |-> Bodies(IF kd = "five" THEN 4 ELSE 3, n, v)] : h \in {"list", "pack", "range"}, kd \in {"dalitz", "five"}, mn \in 1..2, n \in {5, 8, 11}, v \in 0..2}
Distinct(o) == LET q == TLCEval([k \in DOMAIN o.evs |-> Coordinates(o.c, o.evs[k])]) IN \A j \in 1..o.c.dim : Cardinality({q[k][j] : k \in DOMAIN q}) >= (3 * Len(q)) \div 4
Sure(o) == LET q == TLCEval([k \in DOMAIN o.evs |-> Coordinates(o.c, o.evs[k])]) IN Len(q) >= 2 * o.c.min /\ ~Tree(o.c, q)[3]
Hash(o) == Len(o.evs) + 3 * o.c.min + o.c.dim + o.evs[2][1 + ((o.c.dim - 1) % 2)] 
HashE(o) == IF o.c.kind = "xy" THEN AbsB(Hash(o)) ELSE Len(o.evs) + 3 * o.c.min + o.evs[2][1][4] + o.evs[1][1][4]
Builds == {o \in BuildsXY \cup BuildsEv : HashE(o) % Shards = Shard /\ Sure(o)}
Other == [f |-> "build", how |-> "data", c |-> Cfg(1, 1, 999, <<>>, "xy"), evs |-> <<<<5>>, <<1>>, <<9>>, <<4>>, <<0>>>>]
Other3 == [Other EXCEPT !.evs = <<<<5, 5, 5>>, <<1, 20, 9>>, <<9, 3, 1>>>>, !.c.dim = 3]
Probes(o) == IF o.c.kind = "xy" THEN o.evs \o [k \in 1..(IF o.evs[1][1] > 1000000 THEN 0 ELSE 8) |-> [j \in 1..o.c.dim |-> ((k * 7 * j) % 60) - 25]] ELSE o.evs \o Bodies(Len(o.evs[1]), 11, 5)
Kc(s) == s.cfg
\* ---- chi-squared
Ws(n, v) == [k \in 1..n |-> 1 + ((k * (v + 1)) % 3)]
ChiOp(n, m, mn, v) == LET mc == Bodies(3, m, v + 3) g == [k \in 1..m |-> 1 + (k % 2)] IN
   [f |-> "chi2", c |-> Cfg(2, mn, 999, <<>>, "dalitz"), evs |-> Bodies(3, n, v), wd |-> Ws(n, v), mc |-> mc, wm |-> [k \in 1..m |-> 2 * (1 + ((k + v) % 2))], g |-> g, den |-> 0]
Pts(o, e) == TLCEval([k \in DOMAIN e |-> Coordinates(o.c, e[k])])
Sim(o) == TLCEval([k \in DOMAIN o.mc |-> (o.mc[k][1][4] * o.wm[k]) \div o.g[k]])
Small(o) == LET r == Scale(o.wd, Sim(o)) IN r[1] <= 4 /\ r[2] <= 4 /\ Tree(o.c, Pts(o, o.evs))[2] <= 3
ChiOf(o) == LET t == TLCEval(Tree(o.c, Pts(o, o.evs))) IN <<t[2], Chi2(t[1], t[2], Pts(o, o.evs), o.wd, Pts(o, o.mc), Sim(o))>>
ChiOps == {[o EXCEPT !.den = ChiOf(o)[2][2]] : o \in {x \in {ChiOp(n, m, mn, v) : n \in 4..9, m \in 3..10, mn \in 2..3, v \in 0..9} : Sure(x) /\ Small(x)}}
\* the sample stays with the state, to look its events up again
OpsOf(x) == LET s == x.s IN
  IF Part = "chi2" THEN (IF x.b = <<>> THEN ChiOps ELSE {})
  ELSE IF x.b = <<>> THEN Builds
  ELSE LET b == x.b[1] IN
       {[f |-> "find", c |-> b.c, evs |-> Probes(b)]} \cup (IF s.file = <<>> THEN {[f |-> "save"]} ELSE {[f |-> "load"]}) \cup (IF s.lab[1] = None THEN {[f |-> "label", k |-> 1], [f |-> "label", k |-> 2]} ELSE {}) \cup (IF s.file = <<>> THEN {} ELSE {[f |-> "reload"]})
XStep(x, o) == IF o.f = "chi2" THEN [s |-> [x EXCEPT !.b = <<o>>], o |-> <<ChiOf(o)[1], ChiOf(o)[2][1]>>]
  ELSE LET r == BStep(x.s, o) IN [s |-> [s |-> r.s, b |-> IF o.f = "build" THEN <<o>> ELSE x.b, l |-> CASE o.f = "load" -> 1 [] o.f = "reload" -> 2 [] o.f = "build" -> 0 [] OTHER -> x.l], o |-> r.o]
Checked(x, o) == IF o.f # "build" \/ Held(o.c, TLCEval([k \in DOMAIN o.evs |-> Coordinates(o.c, o.evs[k])])) THEN XStep(x, o) ELSE Assert(FALSE, o)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- [s |-> B0, b |-> <<>>, l |-> 0], Ops <- OpsOf, Step <- Checked, Depth <- IF Part = "chi2" THEN 1 ELSE 5
=============================================================================
