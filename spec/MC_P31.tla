------------------------------- MODULE MC_P31 -------------------------------
(* P31: all monomials the rule covers in two to five dimensions over several  *)
(* boxes, and histories of the integrator of three-body decays.               *)
EXTENDS Quad, IOUtils
VARIABLES st, h
Deep == IOEnv.DEEP = "1"
RECURSIVE Total(_)
Total(e) == IF e = <<>> THEN 0 ELSE e[1] + Total(Tail(e))
Exps(d, top) == {e \in [1..d -> 0..top] : Total(e) <= top}
Mon(e) == [c |-> 1, e |-> e]
Boxes(d) == {<<[k \in 1..d |-> 0], [k \in 1..d |-> 1]>>, <<[k \in 1..d |-> IF k % 2 = 1 THEN -1 ELSE 1], [k \in 1..d |-> IF k = 1 THEN 2 ELSE IF k % 2 = 1 THEN 0 ELSE 2]>>}
Box(d, p, b, r) == [f |-> "box", d |-> d, p |-> p, lo |-> b[1], hi |-> b[2], r |-> r]
Routes == {"whole", "lanes", "one"}          \* adaptive; a single application of the rule, in lanes and one point at a time
\* something is added so that the value is not zero
Monos == UNION {{Box(d, <<Mon(e)>>, b, r) : e \in Exps(d, IF d = 2 \/ Deep THEN 7 ELSE IF d = 3 THEN 6 ELSE 3), b \in Boxes(d), r \in Routes} : d \in 2..5}
E1(d, k, n) == [j \in 1..d |-> IF j = k THEN n ELSE 0]
Mixed == UNION {{Box(d, <<[c |-> 2, e |-> E1(d, 1, 7)], [c |-> -1, e |-> E1(d, d, n)], [c |-> 3, e |-> [j \in 1..d |-> IF j <= 3 THEN 2 ELSE 0]], [c |-> 1, e |-> E1(d, 1, 0)]>>, b, r) : n \in {1, 4, 6}, b \in Boxes(d), r \in Routes} : d \in 2..4}
Lines == {[f |-> "line", p |-> <<[c |-> 1, e |-> n], [c |-> -2, e |-> 1], [c |-> 3, e |-> 0]>>, lo |-> x[1], hi |-> x[2], r |-> r] : n \in {0, 2, 3, 5, 6}, x \in {<<0, 1>>, <<-2, 1>>, <<1, 3>>}, r \in {"double", "array", "direct", "space"}}
PVs == {[f |-> "pv", x0 |-> x, a |-> a, c |-> c] : x \in {-2, 0, 3}, a \in {1, 2}, c \in {<<1>>, <<0, 1>>, <<3, 2, 1>>, <<1, -1, 0, 3>>, <<2, 0, 5, 0, 0, 3>>}}
Infs == {[f |-> "inf", k |-> k, c |-> c, x |-> x] : k \in 1..4, c \in {1, -3}, x \in {0, 2}}
Masses == {<<5, 1, 1, 0>>, <<6, 1, 2, 1>>, <<7, 2, 1, 3>>, <<4, 0, 1, 1>>, <<3, 0, 0, 0>>, <<2, 0, 0, 0>>}
Others(s) == {m \in {0, 8, s.m0 + 1} : m = 0 \/ m # s.m0}
U == {-1, 0, 1}
Points(s) == {[f |-> "point", m |-> m, u |-> u, v |-> v] : m \in Others(s), u \in U, v \in U} \cup {[f |-> "back", u |-> u, v |-> v] : u \in U, v \in U}
Planes(s) == IF Massless(s) THEN {[f |-> "plane", m |-> m, a |-> x[1], b |-> x[2]] : m \in {0, 4}, x \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>}} ELSE {}
\* the one-dimensional routines work to a relative precision, which the value zero does not have
Nonzero(o) == Do(Start, o).o # <<"0">>
Ones == {o \in Lines \cup PVs : Nonzero(o)}
Once(s) == s = Start
OpsOf(s) == (IF Once(s) THEN Monos \cup Mixed \cup Ones \cup Infs ELSE {}) \cup {[f |-> "set", q |-> q] : q \in Masses} \cup {[f |-> "mother", m |-> m] : m \in {s.m0 + 2}} \cup Points(s) \cup Planes(s)
\* ---- laws: halves of a box add up; the events have the masses they should have
Half(o) == LET m == [o.hi EXCEPT ![1] = o.lo[1] + 1] n == [o.lo EXCEPT ![1] = o.lo[1] + 1] IN RAdd(Integral(o.p, o.lo, m), Integral(o.p, n, o.hi)) = Integral(o.p, o.lo, o.hi)
Physical(s, o) == LET m0 == M0(s, o) m == M4(s, m0, o.u) IN
   /\ RAdd(RMul(EA(s, m), EA(s, m)), RNeg(PA2(s, m))) = <<Sq(s.m1), 1>>
   /\ RAdd(RMul(EB(s, m), EB(s, m)), RNeg(PA2(s, m))) = <<Sq(s.m2), 1>>
   /\ RAdd(RMul(EC(s, m0, m), EC(s, m0, m)), RNeg(PC2(s, m0, m))) = <<Sq(s.m3), 1>>
   /\ RAdd(EA(s, m), EB(s, m)) = R(m, 4)
   /\ Whole(s, m0, m) = <<Sq(m0), 1>>
   /\ PA2(s, m)[1] > 0 /\ PC2(s, m0, m)[1] > 0
Laws(s, o) == CASE o.f = "box" -> Half(o) [] o.f = "point" -> Physical(s, o) [] OTHER -> TRUE
Checked(s, o) == IF Laws(s, o) THEN Do(s, o) ELSE Assert(FALSE, <<s, o>>)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Checked, Depth <- 3
=============================================================================
