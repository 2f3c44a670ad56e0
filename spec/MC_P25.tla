------------------------------- MODULE MC_P25 -------------------------------
EXTENDS Hel, IOUtils
Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "mesons"
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
\* small momenta
Mo == << <<0, 0, 1, 2>>, <<1, 0, 0, 1>>, <<-1, 1, 0, 2>>, <<0, -1, 1, 1>>, <<1, 1, 0, 3>>, <<0, 1, -1, 2>>, <<-1, 0, 2, 3>>, <<1, -1, 1, 2>> >>
Pick(n, k) == [i \in 1..n |-> Mo[((k * (2 * i + 1) + i * i) % 8) + 1]]
EventsS(n) == [k \in 1..16 |-> IF k < 9 THEN Pick(n, k) ELSE [i \in 1..n |-> Mo[((k + i) % 6) + 1]]]
\* decays of a vector or baryon of mass 4, at rest and moving
Tops == << <<0, 0, 0, 4>>, <<2, 2, 1, 5>> >>
Minus(a, b) == [i \in I4 |-> a[i] - b[i]]
Last3(P, a, b) == <<a, b, Minus(P, VSum(a, b))>>
EventsV(n) == [k \in 1..8 |-> LET P == Tops[(k % 2) + 1] a == Mo[((k * 3) % 8) + 1] b == Mo[((k * 5 + 2) % 8) + 1] IN IF n = 2 THEN <<a, Minus(P, a)>> ELSE Last3(P, a, b)]
\* protons of mass 1 and intermediate steps of integer mass
Prot == {<<0, 0, 0, 1>>, <<1, 1, 1, 2>>, <<2, -2, 0, 3>>, <<0, 2, 2, 3>>, <<-1, 1, -1, 2>>}
Quiet == {<<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<1, 1, 1, 2>>, <<1, -1, 1, 2>>, <<2, 0, 1, 3>>, <<2, 2, 0, 3>>, <<2, 1, 2, 5>>}
\* proton, second, third with the step made of the first two
EventsB == {<<p, Minus(r, p), Minus(P, r)>> : p \in Prot, r \in Quiet, P \in {<<0, 0, 0, 4>>, <<2, 2, 1, 5>>}}
EventsV2 == [k \in 1..8 |-> LET P == Tops[(k % 2) + 1] p == <<<<0, 0, 0, 1>>, <<1, 1, 1, 2>>, <<2, -2, 0, 3>>, <<0, 2, 2, 3>>, <<-1, 1, -1, 2>>>>[(k % 5) + 1] IN <<p, Mo[k], Minus(P, VSum(p, Mo[k]))>>]
Into(fs, e) == IF fs[1] = "p+" THEN e ELSE <<e[3], e[1], e[2]>>
RECURSIVE ToSeq(_, _)
ToSeq(S, n) == IF S = {} \/ n = 0 THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x}, n - 1)
EventsF == << <<<<0, 0, 0, 1>>, <<1, 1, 1, 2>>, <<2, -2, 0, 3>>, <<0, 2, 2, 3>>>>, <<<<1, 1, 1, 2>>, <<0, 0, 0, 1>>, <<-1, 1, -1, 2>>, <<0, 2, 2, 3>>>>, <<<<2, -2, 0, 3>>, <<-1, 1, -1, 2>>, <<0, 0, 0, 1>>, <<1, 1, 1, 2>>>> >>
GoodOnly(t, fs, md, q) == SelectSeq(q, LAMBDA e : Good(t, fs, e) /\ (t.n # "D0" \/ Fits(t, fs, e, [i \in DOMAIN fs |-> 0], md.inco)))
Pols(fs) == {p \in [DOMAIN fs -> {-1, 0, 1}] : \A i \in DOMAIN fs : IF Ferm(fs[i]) THEN p[i] # 0 ELSE p[i] = 0}
Events(x) == GoodOnly(x.t, x.fs, x.md, CASE x.t.n = "D0" -> EventsS(Len(x.fs)) [] x.t.n = "J/psi0" -> EventsV(Len(x.fs)) [] x.t.n = "B0" -> EventsF
                                   [] x.t.n = "Lambda(c)+" -> IF x.t.d[1].n = "K*(892)bar0" THEN EventsV2 ELSE ToSeq({Into(x.fs, e) : e \in {y \in EventsB : Good(x.t, x.fs, Into(x.fs, y))}}, IF Deep THEN 40 ELSE 10))
Set == CASE Part = "mesons" -> Mesons \cup Threes [] Part = "spin" -> Vectors \cup Baryons [] Part = "fours" -> Fours [] Part = "helicity" -> HelDecays
Sample(S) == IF Part = "fours" /\ ~Deep THEN {p \in S : p \in {<<1, 1, 1, 1>>, <<1, 1, -1, 1>>, <<1, -1, -1, 1>>, <<-1, 1, 1, 1>>, <<1, 1, -1, -1>>}} ELSE S
OpOf(x, hd, pol, evs) == [f |-> "amp", x |-> x, head |-> hd, pol |-> pol, evs |-> evs, k |-> Norm(x.t, x.fs, hd, x.md),
                          dens |-> [i \in DOMAIN evs |-> Amplitude(x.t, x.fs, evs[i], hd, pol, x.md)[3]]]
Key(x, hd, pol) == Len(x.d) + hd + pol[1] + 2 * pol[2] + x.t.l
\* ---- canonical formalism: steps of integer mass, the head at rest
Res == << <<1, 1, 1, 2>>, <<1, -1, -1, 2>>, <<2, 0, 1, 3>>, <<2, 2, 0, 3>>, <<-1, 2, 0, 3>>, <<0, 2, -2, 3>>, <<2, -2, 1, 5>>, <<0, 0, 0, 1>>, <<0, 0, 3, 5>>, <<-2, -2, 2, 4>>, <<4, 2, 2, 5>>, <<4, 2, 2, 7>>, <<1, 4, 2, 5>> >>
Opp(r, E) == <<-r[1], -r[2], -r[3], E>>
Kids(r, k) == <<Mo[(k % 8) + 1], Minus(r, Mo[(k % 8) + 1])>>
HEvents(x) == LET n == Len(x.fs) two == n = 4 /\ x.t.d[1].n = "phi(1020)0" nest == n = 4 /\ ~two
                  q == CASE n = 2 -> [k \in 1..8 |-> <<Mo[k], Opp(Mo[k], ((k * 3) % 4) + 1)>>]
                         [] n = 3 -> [k \in 1..24 |-> LET r == Res[(k % 13) + 1] IN Kids(r, 3 * k + k \div 5) \o <<Opp(r, (k % 3) + 1)>>]
                         [] two  -> [k \in 1..24 |-> LET r == Res[(k % 13) + 1] m == IF r = <<4, 2, 2, 5>> THEN 7 ELSE IF r = <<4, 2, 2, 7>> THEN 5 ELSE r[4] IN Kids(r, 5 * k) \o Kids(Opp(r, m), 7 * k + 3)]
                         [] OTHER -> [k \in 1..40 |-> LET a == Res[(k % 11) + 1] r == Res[((k * 3 + k \div 7) % 7) + 1] IN Kids(r, 3 * k + k \div 8) \o <<Minus(a, r), Opp(a, (k % 3) + 1)>>]
              IN SelectSeq(q, LAMBDA e : HGood(x.t, e))
HOps == {[f |-> "hel", x |-> x, head |-> hd, pol |-> [i \in DOMAIN x.fs |-> 0], evs |-> TLCEval(HEvents(x)), k |-> 1, dens |-> [i \in 1..Len(TLCEval(HEvents(x))) |-> Square(x.t, HEvents(x)[i], hd)[3]]] : x \in {y \in HelDecays : (Len(y.d) + y.t.l) % Shards = Shard}, hd \in {-1, 0, 1}}
SEvents(x) == LET q == IF x.t.d[1].n = "K*(892)bar0" THEN [k \in 1..12 |-> LET e == <<<<<<1, 1, 1, 2>>, 4>>, <<<<2, -2, 0, 3>>, 6>>, <<<<0, 2, 2, 3>>, 6>>, <<<<-1, 1, -1, 2>>, 4>>>>[(k % 4) + 1] IN <<e[1]>> \o Kids(Opp(e[1], e[2] - e[1][4]), k)]
                     ELSE IF x.t.n = "D0" THEN [k \in 1..16 |-> LET v == <<<<1, 2, 2>>, <<0, 0, -3>>, <<2, -2, 1>>, <<0, 3, 0>>, <<-2, 1, -2>>>>[(k % 5) + 1] E == IF x.fs[3] = "gamma0" THEN 3 ELSE 5 IN Kids(<<-v[1], -v[2], -v[3], 5>>, k) \o <<<<v[1], v[2], v[3], E>>>>]
                     ELSE ToSeq({e \in EventsB : HGood(x.t, e)}, 12)
              IN SelectSeq(q, LAMBDA e : HGood(x.t, e))
SOps == {[f |-> "helsum", x |-> x, heads |-> x.heads, pols |-> CASE x.fs[3] = "gamma0" -> {<<0, 0, 1>>, <<0, 0, -1>>} [] x.fs[3] = "phi(1020)0" -> {<<0, 0, 1>>, <<0, 0, 0>>, <<0, 0, -1>>} [] OTHER -> {<<1, 0, 0>>, <<-1, 0, 0>>}, head |-> 0, pol |-> <<0, 0, 0>>, evs |-> TLCEval(SEvents(x)), k |-> 1, dens |-> [i \in 1..Len(TLCEval(SEvents(x))) |-> SumW(x, SEvents(x)[i])[2]]] : x \in {y \in SumDecays : Len(y.d) % Shards = Shard}}
OpsOf(s) == IF s.last # <<>> THEN {} ELSE IF Part = "helicity" THEN {o \in HOps : o.head \in o.x.heads} \cup SOps ELSE UNION {UNION {{OpOf(x, hd, pol, TLCEval(Events(x))) : hd \in {y \in x.heads : Key(x, y, pol) % Shards = Shard}} : pol \in Sample(Pols(x.fs))} : x \in Set}
\* ---- laws: exchanging identical particles in the event, cyclic permutation of the axes
Cyc(e) == [i \in DOMAIN e |-> <<e[i][2], e[i][3], e[i][1], e[i][4]>>]
ALaws(o) == \A k \in DOMAIN o.evs : LET e == o.evs[k] a == Amplitude(o.x.t, o.x.fs, e, o.head, o.pol, o.x.md) IN
             /\ (Kind(o.x.t.n) = "S" /\ ~(\E i \in DOMAIN o.x.fs : Ferm(o.x.fs[i])) => Amplitude(o.x.t, o.x.fs, Cyc(e), o.head, o.pol, o.x.md) = a)
             /\ (~o.x.md.nosym => \A f \in Exch(o.x.fs) : LET b == Amplitude(o.x.t, o.x.fs, Through(e, f), o.head, Through(o.pol, f), o.x.md) sg == IF o.x.md.inco THEN 1 ELSE Sign(f, o.x.fs) IN b = <<sg * a[1], sg * a[2], a[3]>>)
Amp0 == [last |-> <<>>]
AStep(s, o) == [s |-> [last |-> o], o |-> IF o.f = "helsum" THEN [k \in DOMAIN o.evs |-> SumW(o.x, o.evs[k])[1]] ELSE IF o.f = "hel" THEN [k \in DOMAIN o.evs |-> LET a == Square(o.x.t, o.evs[k], o.head) IN <<a[1], a[2]>>] ELSE [k \in DOMAIN o.evs |-> LET a == Amplitude(o.x.t, o.x.fs, o.evs[k], o.head, o.pol, o.x.md) IN <<a[1], a[2]>>]]
Checked(s, o) == IF o.f \in {"hel", "helsum"} \/ ALaws(o) THEN AStep(s, o) ELSE Assert(FALSE, o)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- Amp0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
