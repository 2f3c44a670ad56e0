------------------------------- MODULE MC_P26 -------------------------------
EXTENDS Kin, IOUtils
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
Starts == << <<<<1, 0, 0, 2>>, <<0, 2, 1, 3>>, <<-2, -1, 1, 3>>, <<1, -1, -2, 4>>>>, <<<<1, 1, 0, 2>>, <<-1, 0, 2, 4>>, <<0, -2, -1, 3>>, <<0, 1, -1, 2>>>>, <<<<2, 0, 1, 3>>, <<-1, -1, 0, 2>>, <<0, 1, -2, 3>>, <<-1, 0, 1, 2>>>> >>
Axes == {<<<<0, 0, 1>>, 1>>, <<<<1, 2, 2>>, 3>>, <<<<0, 3, 0>>, 3>>, <<<<-2, 0, 0>>, 2>>, <<<<2, -1, -2>>, 3>>, <<<<0, 3, -4>>, 5>>}
Speeds == {<<<<3, 5>>, <<5, 4>>>>, <<<<-4, 5>>, <<5, 3>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<-3, 5>>, <<5, 4>>>>}
Turns == {<<0, 1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<1, 0, 1>>}
Bases == {<<<<<<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>>>>, 3>>, <<<<<<0, 0, 2>>, <<2, 0, 0>>, <<0, 2, 0>>>>, 2>>, <<<<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, 1>>}
Moves == {[f |-> "boost", n |-> a[1], l |-> a[2], v |-> v[1], g |-> v[2]] : a \in Axes, v \in Speeds}
  \cup {[f |-> "rotate", n |-> a[1], l |-> a[2], c |-> t[1], s |-> t[2], r |-> t[3]] : a \in Axes, t \in Turns}
  \cup {[f |-> "basis", b |-> b[1], l |-> b[2]] : b \in Bases}
Key(o) == IF o.f = "basis" THEN 1 ELSE AbsK(o.n[1] + 2 * o.n[2] + 3 * o.n[3]) + (IF o.f = "boost" THEN o.v[1] + 7 ELSE o.c + o.s + 5)
Dens(q) == << [k \in DOMAIN q[1] |-> q[1][k][2]], [k \in DOMAIN q[2] |-> q[2][k][2]], q[3][2], [k \in DOMAIN q[4] |-> q[4][k][1][2]], q[5][1][2] >>
With(o, d, q) == [x \in DOMAIN o \cup {"d", "q"} |-> IF x = "d" THEN d ELSE IF x = "q" THEN q ELSE o[x]]
\* numbers stay below 2^31: the second and later moves only from events that are still small
Tame(s) == s.d <= 75 /\ \A i \in I4 : \A j \in I4 : AbsK(s.e[i][j]) < 1000
OpsOf(s) == IF s.e = <<>> THEN {With([f |-> "new", e |-> Starts[k]], 1, Dens(Shown(Starts[k], 1))) : k \in DOMAIN Starts}
            ELSE IF ~Tame(s) THEN {} ELSE {With(o, Image(s, o)[2], Dens(Shown(s.e0, 1))) : o \in {m \in Moves : s.d > 1 \/ s.e # s.e0 \/ Key(m) % Shards = Shard}}
Bare(o) == o
Num(q) == << [k \in DOMAIN q[1] |-> q[1][k][1]], [k \in DOMAIN q[2] |-> q[2][k][1]], q[3][1], [k \in DOMAIN q[4] |-> <<q[4][k][1][1], q[4][k][2]>>], <<q[5][1][1], q[5][2]>> >>
Obs(r) == [s |-> r.s, o |-> <<r.o[1], Num(r.o[2]), r.o[3]>>]
Checked(s, o) == LET r == KStep(s, o) IN IF SameProducts(r.s) THEN Obs(r) ELSE Assert(FALSE, <<s, o, r.s>>)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- Kin0, Ops <- OpsOf, Step <- Checked, Depth <- IF Deep THEN 4 ELSE 3
=============================================================================
