-------------------------------- MODULE Quad --------------------------------
(* Numerical integration.  Integrals of polynomials over boxes with whole     *)
(* corners are rational and known exactly, and the rules of the library are   *)
(* exact for them, so what it returns is compared with the rational number.   *)
(* The second part is the integrator over the plane of three-body decays: its *)
(* state are the squared masses; each point of its unit square is an event of *)
(* the decay, and its measure is the one of the two squared masses.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
QAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE QGcd(_, _)
QGcd(a, b) == IF b = 0 THEN QAbs(a) ELSE QGcd(QAbs(b), QAbs(a) % QAbs(b))
R(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == QGcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN <<s * ((QAbs(n) \div g) * (IF n < 0 THEN -1 ELSE 1)), QAbs(d) \div g>>
RMul(a, b) == LET x == R(a[1], b[2]) y == R(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
RAdd(a, b) == LET g == QGcd(a[2], b[2]) IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
\* shown if the nearest fraction is unmistakable at the precision of the comparison
Show(a) == IF QAbs(a[1]) > 100000 \/ a[2] > 5000 THEN "?" ELSE IF a[2] = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "/" \o ToString(a[2])
RECURSIVE QPow(_, _)
QPow(b, e) == IF e = 0 THEN 1 ELSE b * QPow(b, e - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Mono(e, lo, hi) == R(QPow(hi, e + 1) - QPow(lo, e + 1), e + 1)
RECURSIVE Term(_, _, _)
Term(e, lo, hi) == IF e = <<>> THEN <<1, 1>> ELSE RMul(Mono(e[1], lo[1], hi[1]), Term(Tail(e), Tail(lo), Tail(hi)))
RECURSIVE Integral(_, _, _)
Integral(p, lo, hi) == IF p = <<>> THEN <<0, 1>> ELSE RAdd(RMul(<<p[1].c, 1>>, Term(p[1].e, lo, hi)), Integral(Tail(p), lo, hi))
\* principal value of the integral of sum c_k (x - x0)^(k-1) / (x - x0) from x0 - a to x0 + a
RECURSIVE PV(_, _, _)
PV(c, a, k) == IF c = <<>> THEN <<0, 1>> ELSE RAdd(IF k % 2 = 1 THEN R(c[1] * 2 * QPow(a, k), k) ELSE <<0, 1>>, PV(Tail(c), a, k + 1))
\* integral over the line of 1 / (1 + x^2)^k, in units of pi
Tail1(k) == R(Fact(2 * k - 2), Fact(k - 1) * Fact(k - 1) * QPow(4, k - 1))

\* ---- three-body decays: state [m0, m1, m2, m3], masses; a point is given by 2 cos(pi u), 2 cos(pi v) in {-1, 0, 1}
Sq(x) == x * x
M4(s, m0, u) == 4 * (s.m1 + s.m2) + (m0 - s.m3 - s.m1 - s.m2) * (u + 2)                 \* four times the mass of the first pair
PA2(s, m) == R(QPow(m, 4) - 32 * Sq(m) * (Sq(s.m1) + Sq(s.m2)) + 256 * Sq(Sq(s.m1) - Sq(s.m2)), 64 * Sq(m))
X16(s, m0, m) == 16 * (Sq(m0) - Sq(s.m3)) - Sq(m)
PC2(s, m0, m) == R(Sq(X16(s, m0, m)) - 64 * Sq(m) * Sq(s.m3), 64 * Sq(m))
EA(s, m) == R(Sq(m) + 16 * (Sq(s.m1) - Sq(s.m2)), 8 * m)
EB(s, m) == R(Sq(m) + 16 * (Sq(s.m2) - Sq(s.m1)), 8 * m)
EC(s, m0, m) == R(X16(s, m0, m), 8 * m)
\* sin^2 of the angle whose double cosine is u
Sin2(u) == R(4 - u * u, 4)
\* the mass, the momenta squared and energies in the frame of the first pair, twice the cosine of the angle between the first and the third,
\* and the square of the measure over pi^2 and the momenta and mass
Point(s, m0, o) == LET m == M4(s, m0, o.u) IN
   <<Show(R(m, 4)), Show(PA2(s, m)), Show(PC2(s, m0, m)), Show(EA(s, m)), Show(EB(s, m)), Show(EC(s, m0, m)), ToString(o.v), Show(RMul(RMul(<<4 * Sq(m0 - s.m3 - s.m1 - s.m2), 1>>, Sin2(o.u)), Sin2(o.v)))>>
\* what the decay requires of any such event: squared mass of the whole is m0^2
Whole(s, m0, m) == RAdd(RAdd(R(Sq(m), 16), <<Sq(s.m3), 1>>), RMul(R(m, 2), EC(s, m0, m)))
Massless(s) == s.m1 = 0 /\ s.m2 = 0 /\ s.m3 = 0
\* integral of s12^a s13^b over the plane, divided by the squared mass of the mother
Plane(m0, a, b) == R(QPow(Sq(m0), a + b + 1) * Fact(a) * Fact(b), Fact(a + b + 2))
Open(o) == \E k \in DOMAIN o : o[k] = "?"
Close(o) == IF Open(o) THEN "?" ELSE o
Start == [m0 |-> 5, m1 |-> 1, m2 |-> 1, m3 |-> 0]
M0(s, o) == IF o.m = 0 THEN s.m0 ELSE o.m
Do(s, o) ==
  CASE o.f = "box" -> [s |-> s, o |-> Close(<<Show(Integral(o.p, o.lo, o.hi))>>)]
    [] o.f = "line" -> [s |-> s, o |-> Close(<<Show(Integral([k \in DOMAIN o.p |-> [c |-> o.p[k].c, e |-> <<o.p[k].e>>]], <<o.lo>>, <<o.hi>>))>>)]
    [] o.f = "pv" -> [s |-> s, o |-> Close(<<Show(PV(o.c, o.a, 0))>>)]
    [] o.f = "inf" -> [s |-> s, o |-> <<Show(RMul(<<o.c, 1>>, Tail1(o.k)))>>]
    [] o.f = "set" -> [s |-> [m0 |-> o.q[1], m1 |-> o.q[2], m2 |-> o.q[3], m3 |-> o.q[4]], o |-> <<>>]
    [] o.f = "mother" -> [s |-> [s EXCEPT !.m0 = o.m], o |-> <<>>]
    \* o.m = 0: the mother of the integrator; otherwise another one given with the call
    [] o.f = "point" -> [s |-> s, o |-> Close(Point(s, M0(s, o), o))]
    \* the way back: position in the square of the event of this point
    [] o.f = "back" -> [s |-> s, o |-> <<ToString(o.u), ToString(o.v)>>]
    [] o.f = "plane" -> [s |-> s, o |-> IF Massless(s) THEN Close(<<Show(Plane(M0(s, o), o.a, o.b))>>) ELSE "?"]
=============================================================================
