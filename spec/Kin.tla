-------------------------------- MODULE Kin --------------------------------
(* Kinematics of four-particle events.  The state is an event: four momenta   *)
(* (x, y, z, E) as integers over a common denominator, and the event it was   *)
(* made from, which is at rest.  Rotations, boosts and changes of basis change *)
(* the momenta; angles and invariants between them depend only on the event    *)
(* it was made from (and on the handedness of the basis).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsK(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdK(_, _)
GcdK(a, b) == IF b = 0 THEN AbsK(a) ELSE GcdK(AbsK(b), AbsK(a) % AbsK(b))
Rat(n, d) == LET x == GcdK(AbsK(n), AbsK(d)) sg == IF d < 0 THEN -1 ELSE 1 IN <<(sg * n) \div x, (sg * d) \div x>>
RMul(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN Rat(x[1] * y[1], x[2] * y[2])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
I4 == 1..4
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dot4(a, b) == a[4] * b[4] - Dot3(a, b)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add4(a, b) == [i \in I4 |-> a[i] + b[i]]
RECURSIVE SumOf(_, _)
SumOf(e, S) == IF S = {} THEN <<0, 0, 0, 0>> ELSE LET i == CHOOSE x \in S : TRUE IN Add4(e[i], SumOf(e, S \ {i}))
\* ---- changes of the event: numerators over the product of the denominators, then reduced
RECURSIVE GcdAll(_, _)
GcdAll(e, d) == LET RECURSIVE go(_, _) go(k, x) == IF k > 16 \/ x = 1 THEN x ELSE go(k + 1, GcdK(x, e[((k - 1) \div 4) + 1][((k - 1) % 4) + 1])) IN go(1, d)
Reduced(e, d) == LET x == GcdAll(e, d) IN <<TLCEval([i \in DOMAIN e |-> [j \in I4 |-> e[i][j] \div x]]), d \div x>>
\* axis n of integer length l; boost with velocity v[1]/v[2] and gamma g[1]/g[2]
Boosted(p, n, l, v, g) == LET nv == Dot3(p, n) IN
  \* new p = p + ((gamma - 1) n.p / l + gamma v E) n / l over  l^2 g2 v2
  <<p[1] * l * l * g[2] * v[2] + ((g[1] - g[2]) * nv * v[2] + g[1] * v[1] * p[4] * l) * n[1],
    p[2] * l * l * g[2] * v[2] + ((g[1] - g[2]) * nv * v[2] + g[1] * v[1] * p[4] * l) * n[2],
    p[3] * l * l * g[2] * v[2] + ((g[1] - g[2]) * nv * v[2] + g[1] * v[1] * p[4] * l) * n[3],
    g[1] * (p[4] * v[2] * l + v[1] * nv) * l>>
\* rotation about n by the angle with cosine c/r and sine s/r
Rotated(p, n, l, c, s, r) == LET nv == Dot3(p, n) w == Cross(n, p) IN
  <<c * l * l * p[1] + s * l * w[1] + (r - c) * nv * n[1], c * l * l * p[2] + s * l * w[2] + (r - c) * nv * n[2], c * l * l * p[3] + s * l * w[3] + (r - c) * nv * n[3], r * l * l * p[4]>>
\* components along three axes of the same integer length l
Based(p, b, l) == <<Dot3(p, b[1]), Dot3(p, b[2]), Dot3(p, b[3]), l * p[4]>>
Den(o) == CASE o.f = "boost" -> o.l * o.l * o.g[2] * o.v[2] [] o.f = "rotate" -> o.r * o.l * o.l [] o.f = "basis" -> o.l
Image(s, o) == Reduced([i \in I4 |-> CASE o.f = "boost" -> Boosted(s.e[i], o.n, o.l, o.v, o.g) [] o.f = "rotate" -> Rotated(s.e[i], o.n, o.l, o.c, o.s, o.r) [] o.f = "basis" -> Based(s.e[i], o.b, o.l)], s.d * Den(o))
Handed(o) == IF o.f = "basis" THEN Sgn(Dot3(Cross(o.b[1], o.b[2]), o.b[3])) ELSE 1
\* ---- quantities of the event at rest, e0
\* cosine between i and j in the rest frame of S: sign and square
FrameDot(a, b, P) == -Dot4(a, b) * Dot4(P, P) + Dot4(a, P) * Dot4(b, P)
HelCos(e, A, B, S) == LET a == SumOf(e, A) b == SumOf(e, B) P == SumOf(e, S) x == FrameDot(a, b, P) q == RMul(Rat(x, FrameDot(a, a, P)), Rat(x, FrameDot(b, b, P))) IN <<Sgn(x) * q[1], q[2]>>
\* momentum of A in the rest frame of A and B, squared
Transfer2(e, A, B) == LET a == SumOf(e, A) b == SumOf(e, B) P == Add4(a, b) s == Dot4(P, P) x == Dot4(a, P) IN Rat(x * x - Dot4(a, a) * s, s)
\* angle between the planes (i, j) and (k, w) in the rest frame of all: cosine (sign and square) and sign of the sine
PlaneCos(e, i, j, k, w) == LET a == Cross(e[i], e[j]) b == Cross(e[k], e[w]) x == Dot3(a, b) q == RMul(Rat(x, Dot3(a, a)), Rat(x, Dot3(b, b))) IN <<Sgn(x) * q[1], q[2]>>
PlaneSin(e, i, j, w) == Sgn(Dot3(Cross(e[i], e[j]), e[w]))
Cosines == << <<{1}, {3}, {1, 2}>>, <<{1}, {2}, {1, 2, 3, 4}>>, <<{1, 2}, {4}, {1, 2, 3, 4}>>, <<{2}, {1, 4}, {2, 3}>>, <<{3}, {4}, {2, 3, 4}>> >>
Transfers == << <<{1}, {2}>>, <<{1, 2}, {3, 4}>>, <<{1, 2, 3}, {4}>>, <<{2, 4}, {3}>> >>
Planes == << <<1, 2, 3, 4>>, <<1, 3, 2, 4>>, <<4, 2, 1, 3>> >>
Shown(e, hand) == << [k \in DOMAIN Cosines |-> HelCos(e, Cosines[k][1], Cosines[k][2], Cosines[k][3])], [k \in DOMAIN Transfers |-> Transfer2(e, Transfers[k][1], Transfers[k][2])],
                     PlaneCos(e, 1, 2, 3, 4), [k \in DOMAIN Planes |-> <<PlaneCos(e, Planes[k][1], Planes[k][2], Planes[k][3], Planes[k][4]), hand * PlaneSin(e, Planes[k][1], Planes[k][2], Planes[k][4])>>],
                     <<PlaneCos(e, 1, 2, 4, 3), hand * PlaneSin(e, 1, 2, 3)>> >>
Kin0 == [e |-> <<>>, d |-> 1, e0 |-> <<>>, hand |-> 1]
\* an operation carries the denominator of its result, which the observation leaves out
KStep(s, o) ==
  IF o.f = "new" THEN [s |-> [e |-> o.e, d |-> 1, e0 |-> o.e, hand |-> 1], o |-> <<o.e, Shown(o.e, 1), 7>>]
  ELSE LET t == Image(s, o) IN [s |-> [s EXCEPT !.e = t[1], !.d = t[2], !.hand = @ * Handed(o)], o |-> <<t[1], Shown(s.e0, s.hand * Handed(o)), 7>>]
\* ---- law: products between momenta are unchanged
Small(e) == \A i \in DOMAIN e, j \in I4 : AbsK(e[i][j]) < 20000
SameProducts(s) == Small(s.e) /\ s.d < 2000 => \A i, j \in I4 : (Dot4(s.e[i], s.e[j]) % (s.d * s.d) = 0 /\ Dot4(s.e[i], s.e[j]) \div (s.d * s.d) = Dot4(s.e0[i], s.e0[j]))
=============================================================================
