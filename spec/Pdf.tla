-------------------------------- MODULE Pdf --------------------------------
(* Amplitude models: a coherent sum C (four amplitudes), an incoherent sum I *)
(* (three) and a polarised sum P over the two flavours (C's four amplitudes  *)
(* and two conjugate ones), sharing one set of parameters.  A model is given *)
(* events and an integration sample and prepared; from then on everything it *)
(* reports is the function of parameters, events and sample defined here, in *)
(* exact arithmetic, whatever the history of caches that led there.          *)
(* Between a change and the next preparation a model's answers are open.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Lim == 1000000
PAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE PGcd(_, _)
PGcd(a, b) == IF b = 0 THEN a ELSE PGcd(b, a % b)
\* events
D(id, k) == ((7 * id + 3 * k * k + id * k) % 5) - 2
GenPdf(id) == CASE id % 3 = 0 -> 1 [] id % 3 = 1 -> 2 [] id % 3 = 2 -> 4
Wgt(id) == (((id * 3) % 7) + 1) * (4 \div GenPdf(id))     \* 16 w / g
\* complex integers
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CNorm(a) == a[1] * a[1] + a[2] * a[2]
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE LET r == CSum(Tail(s)) IN <<s[1][1] + r[1], s[1][2] + r[2]>>
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE s[1] + ISum(Tail(s))
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
\* the four amplitudes
Amp(i, id, p) == CASE i = 1 -> <<D(id, 1) + p.va * D(id, 2), D(id, 5)>> [] i = 2 -> <<p.vb * D(id, 3), D(id, 6) + p.va * D(id, 9)>>
                   [] i = 3 -> <<D(id, 9) - 1, D(id, 2)>> [] i = 4 -> <<D(id, 10) + p.vb, D(id, 7)>>
NAmp(k) == CASE k = "C" -> 4 [] k = "I" -> 3
Term(s, k, i, id) == CMul(s.c[k][i], Amp(i, id, s.p))
Total(s, id) == CSum([i \in 1..4 |-> Term(s, "C", i, id)])
Total1(s, id) == CSum([i \in 1..2 |-> CMul(s.c.Q[i], Amp(i + 1, id, s.p))])
Yield(s, k) == CASE k = "C" -> s.p.yC [] k = "I" -> s.p.yI [] k = "P" -> s.p.yP
\* unnormalised probability
Prob(s, k, id) ==
   CASE k = "C" -> CNorm(Total(s, id))
     [] k = "I" -> ISum([i \in 1..3 |-> CNorm(Term(s, "I", i, id))])
     [] k = "P" -> LET t0 == Total(s, id) t1 == Total1(s, id)
                   IN CNorm(t0) * (1 + s.p.Pz) + CNorm(t1) * (1 - s.p.Pz) + 2 * CMul(<<s.p.Px, s.p.Py>>, CMul(t0, CConj(t1)))[1]
\* the integral over the sample is N / M
M(s, k) == ISum([j \in DOMAIN s[k].mc |-> Wgt(s[k].mc[j])])
N(s, k) == ISum([j \in DOMAIN s[k].mc |-> Wgt(s[k].mc[j]) * Prob(s, k, s[k].mc[j])])
Norm(s, k) == IF s[k].mc = <<>> THEN <<1, 1>> ELSE <<N(s, k), M(s, k)>>
Bil(s, k, i, j) == CSum([q \in DOMAIN s[k].mc |-> LET id == s[k].mc[q] w == Wgt(id) z == CMul(Amp(i, id, s.p), CConj(Amp(j, id, s.p))) IN <<w * z[1], w * z[2]>>])
\* numbers as observed: reduced fractions; "?" when out of range
Fr(n, d) == IF d = 0 THEN "?" ELSE
   LET g == PGcd(PAbs(n), PAbs(d)) sg == IF d < 0 THEN -1 ELSE 1 a == sg * (n \div g) b == PAbs(d) \div g   \* both divisions are exact
   IN IF PAbs(a) > Lim \/ b > Lim THEN "?" ELSE IF b = 1 THEN ToString(a) ELSE ToString(a) \o "/" \o ToString(b)
CFr(z, d) == <<Fr(z[1], d), Fr(z[2], d)>>
Whole(z) == Fr(z, 1)
\* an observation with a number out of range is open as a whole; every observation is a sequence of sequences of numbers
Open(o) == \E i \in DOMAIN o : \E j \in DOMAIN o[i] : o[i][j] = "?"
\* value of the model on event id: yield * u / (N / M)
Density(s, k, id, nm) == IF nm[1] = 0 THEN "?" ELSE Fr(Yield(s, k) * Prob(s, k, id) * nm[2], nm[1])

Reads(s, k, ids, nm) == [i \in DOMAIN ids |->
   CASE k = "C" -> CFr(Total(s, ids[i]), 1) \o <<Density(s, k, ids[i], nm)>> [] k = "I" -> <<Whole(Prob(s, k, ids[i])), Density(s, k, ids[i], nm)>> [] k = "P" -> <<Density(s, k, ids[i], nm)>>]
NoCache(s, k, ids) == [i \in DOMAIN ids |-> IF k = "C" THEN CFr(Total(s, ids[i]), 1) ELSE <<Whole(Prob(s, k, ids[i]))>>]
Pairs == <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 3>>, <<3, 4>>, <<4, 4>>>>
Norms(s, k) == LET nm == Norm(s, k) m == M(s, k) IN
   <<<<Fr(nm[1], nm[2])>>>> \o (CASE k = "C" -> [q \in 1..10 |-> CFr(Bil(s, k, Pairs[q][1], Pairs[q][2]), m)] [] k = "I" -> [i \in 1..3 |-> CFr(Bil(s, k, i, i), m)] [] k = "P" -> <<>>)
Comps(s, k, id) == CASE k = "C" -> [q \in 1..10 |-> LET i == Pairs[q][1] j == Pairs[q][2] v == CMul(Term(s, "C", i, id), CConj(Term(s, "C", j, id)))[1] IN Whole(IF i = j THEN v ELSE 2 * v)]
                     [] k = "I" -> [i \in 1..3 |-> Whole(CNorm(Term(s, "I", i, id)))] [] k = "P" -> <<>>
Evals(s, k, ids, nm) == [i \in DOMAIN ids |-> <<Density(s, k, ids[i], nm), Whole(Prob(s, k, ids[i]))>> \o Comps(s, k, ids[i]) \o (IF k = "C" THEN CFr(Total(s, ids[i]), 1) ELSE <<>>)]
\* fractions: numerators relative to the whole integral
Cross(s, k, i, j) == CMul(CMul(s.c[k][i], CConj(s.c[k][j])), Bil(s, k, i, j))[1]
Off(s, k, i, j) == IF k = "I" /\ i # j THEN 0 ELSE Cross(s, k, i, j)
FracNum(s, k) == LET n == NAmp(k) IN [i \in 1..n |-> Cross(s, k, i, i)] \o <<Off(s, k, 1, 1) + Off(s, k, 1, 2) + Off(s, k, 2, 1) + Off(s, k, 2, 2), Off(s, k, 1, 3)>>
Fracs(s, k) == LET x == FracNum(s, k) n == N(s, k) IN <<[i \in 1..(Len(x) + 1) |-> IF n = 0 THEN "?" ELSE Fr(IF i > Len(x) THEN ISum(x) ELSE x[i], n)]>>

\* penalties used in fits, up to their sign: the squared distance of a ratio of partial integrals from its target, and the size of every amplitude
RECURSIVE Sub(_, _, _)
Sub(s, q, r) == IF q = <<>> THEN 0 ELSE ISum([j \in DOMAIN r |-> Cross(s, "C", q[1], r[j])]) + Sub(s, Tail(q), r)
Ratio(s, o) == LET a == Sub(s, o.nu, o.nu) b == Sub(s, o.de, o.de) n == a - o.r * b g == PGcd(PAbs(n), PAbs(b))
               IN IF b = 0 \/ PAbs(n) \div g > 5000 \/ PAbs(b) \div g > 5000 THEN "?" ELSE Fr(o.w * (n \div g) * (n \div g), (b \div g) * (b \div g))
Sizes(s) == [i \in 1..4 |-> Fr(Cross(s, "C", i, i), M(s, "C"))]

Ks == {"C", "I", "P"}
Models == [ev |-> <<>>, mc |-> <<>>, st |-> "L", dead |-> FALSE, seen |-> <<>>]
Start == [p |-> [va |-> 1, vb |-> 1, yC |-> 1, yI |-> 1, yP |-> 1, Px |-> 0, Py |-> 0, Pz |-> 0],
          c |-> [C |-> [i \in 1..4 |-> <<1, 0>>], I |-> [i \in 1..3 |-> <<1, 0>>], Q |-> [i \in 1..2 |-> <<1, 0>>]], C |-> Models, I |-> Models, P |-> Models]
\* "L": values have to be recomputed; "C": only coefficients; "no": everything is up to date
Worse(a, b) == IF a = "L" \/ b = "L" THEN "L" ELSE IF a = "C" \/ b = "C" THEN "C" ELSE "no"
Mark(s, ks, how) == [k \in DOMAIN s |-> IF k \in ks THEN [s[k] EXCEPT !.st = Worse(@, how)] ELSE s[k]]
\* what the model has been prepared with: not observable, it only keeps histories apart
Seen(s, k) == <<s.p, s.c, s[k].ev, s[k].mc>>
Ready(s, k) == LET t == [s EXCEPT ![k].st = "no"] IN [t EXCEPT ![k].seen = Seen(t, k)]
RECURSIVE ReadyAll(_, _)
ReadyAll(s, ks) == IF ks = <<>> THEN s ELSE ReadyAll(Ready(s, ks[1]), Tail(ks))
Close(o) == IF Open(o) THEN "?" ELSE o
\* a model without integration sample has norm 1; an integral that vanishes leaves the densities open
Answer(s, k, o) == [s |-> s, o |-> IF s[k].dead \/ s[k].st # "no" THEN "?" ELSE Close(o)]
Apply(s, o) ==
   CASE o.f = "par" -> [s |-> IF s.p[o.n] = o.v THEN s ELSE
                          Mark([s EXCEPT !.p[o.n] = o.v], CASE o.n \in {"va", "vb"} -> Ks [] o.n = "yC" -> {"C"} [] o.n = "yI" -> {"I"} [] OTHER -> {"P"}, IF o.n \in {"va", "vb"} THEN "L" ELSE "C"), o |-> <<>>]
     [] o.f = "cpl" -> [s |-> IF s.c[o.k][o.i] = <<o.re, o.im>> THEN s ELSE Mark([s EXCEPT !.c[o.k][o.i] = <<o.re, o.im>>], CASE o.k = "C" -> {"C", "P"} [] o.k = "I" -> {"I"} [] o.k = "Q" -> {"P"}, "C"), o |-> <<>>]
     [] o.f = "setev" -> [s |-> Mark([s EXCEPT ![o.k].ev = o.es], {o.k}, "L"), o |-> <<>>]
     [] o.f = "setmc" -> [s |-> Mark([s EXCEPT ![o.k].mc = o.es], {o.k}, "L"), o |-> <<>>]
     [] o.f = "prepare" -> [s |-> Ready(s, o.k), o |-> <<>>]
     [] o.f = "reset" -> [s |-> IF o.all THEN Mark([s EXCEPT ![o.k].ev = <<>>, ![o.k].mc = <<>>], {o.k}, "L") ELSE s, o |-> <<>>]
     [] o.f = "drop" -> [s |-> [s EXCEPT ![o.k].dead = TRUE], o |-> <<>>]
     [] o.f = "read" -> Answer(s, o.k, Reads(s, o.k, s[o.k].ev, Norm(s, o.k)))
     [] o.f = "nocache" -> Answer(s, o.k, NoCache(s, o.k, o.es))
     [] o.f = "norm" -> IF s[o.k].mc = <<>> THEN [s |-> s, o |-> "?"] ELSE Answer(s, o.k, Norms(s, o.k))
     [] o.f = "eval" -> Answer(s, o.k, Evals(s, o.k, o.es, Norm(s, o.k)))
     [] o.f = "frac" -> LET t == IF o.re THEN Ready(s, o.k) ELSE s IN
                          [s |-> t, o |-> IF t[o.k].dead \/ t[o.k].st = "L" \/ t[o.k].mc = <<>> THEN "?" ELSE Close(Fracs(t, o.k))]
     [] o.f = "ratio" -> IF s.C.mc = <<>> THEN [s |-> s, o |-> "?"] ELSE Answer(s, "C", <<<<Ratio(s, o)>>>>)
     [] o.f = "lasso" -> IF s.C.mc = <<>> THEN [s |-> s, o |-> "?"] ELSE Answer(s, "C", <<Sizes(s)>>)
     [] o.f = "like" -> LET t == ReadyAll([k \in DOMAIN s |-> IF k \in {o.ks[i] : i \in DOMAIN o.ks} THEN [s[k] EXCEPT !.ev = o.es] ELSE s[k]], o.ks)
                        IN [s |-> t, o |-> IF \E i \in DOMAIN o.ks : t[o.ks[i]].mc # <<>> /\ N(t, o.ks[i]) = 0 THEN "?" ELSE "ok"]
=============================================================================
