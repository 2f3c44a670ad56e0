------------------------------ MODULE AngMom -------------------------------
(* Addition of angular momenta, exactly.  Angular momenta and projections    *)
(* are given as twice their value.  A coefficient is its sign and its        *)
(* square, a rational kept as prime exponents until it is shown.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MAbs(x) == IF x < 0 THEN -x ELSE x
MMax(a, b) == IF a > b THEN a ELSE b
MMin(a, b) == IF a < b THEN a ELSE b
Even(x) == x % 2 = 0
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31>>
NP == Len(Primes)
One == [k \in 1..NP |-> 0]
RECURSIVE Val(_, _)
Val(n, p) == IF n % p # 0 THEN 0 ELSE 1 + Val(n \div p, p)
VecOf(n) == [k \in 1..NP |-> Val(n, Primes[k])]
VPlus(a, b) == [k \in 1..NP |-> a[k] + b[k]]
VTimes(a, c) == [k \in 1..NP |-> c * a[k]]
\* exponents of n!, n below 32
FacVec[n \in 0..31] == IF n < 2 THEN One ELSE VPlus(FacVec[n - 1], VecOf(n))
Binom[n \in 0..31, k \in 0..31] == IF k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE IF n > 24 THEN 0 ELSE Binom[n - 1, k - 1] + Binom[n - 1, k]
C(n, k) == IF k < 0 \/ n < 0 \/ k > n THEN 0 ELSE Binom[n, k]
RECURSIVE VSum(_, _)
VSum(q, acc) == IF q = <<>> THEN acc ELSE VSum(Tail(q), VPlus(acc, q[1]))
F(n) == FacVec[n]
Inv(v) == VTimes(v, -1)

\* ---- a number sgn * sqrt(square), square = (product of Primes) * n^2; shown if numerator and denominator stay below Cap
Cap == 100000
RECURSIVE Strip(_, _)
Strip(n, k) == IF k > NP THEN n ELSE IF n % Primes[k] = 0 THEN Strip(n \div Primes[k], k) ELSE Strip(n, k + 1)
CMul(a, b) == IF a = 0 \/ b > Cap \/ a > Cap \div b THEN 0 ELSE a * b          \* 0: too big
RECURSIVE CPow(_, _)
CPow(p, e) == IF e <= 0 THEN 1 ELSE CMul(CPow(p, e - 1), p)
RECURSIVE CProd(_, _, _)
CProd(v, sg, k) == IF k > NP THEN 1 ELSE CMul(CProd(v, sg, k + 1), CPow(Primes[k], sg * v[k]))
\* sgn sqrt(v n^2)
Number(v, n) ==
  IF n = 0 THEN "0" ELSE
  LET a == MAbs(n)
      w == VPlus(v, VTimes(VecOf(a), 2))
      r == Strip(a, 1)
      num == CMul(CProd(w, 1, 1), IF r > 300 THEN Cap + 1 ELSE r * r)
      den == CProd(w, -1, 1)
  IN IF num = 0 \/ den = 0 THEN "?" ELSE (IF n < 0 THEN "-" ELSE "") \o ToString(num) \o (IF den = 1 THEN "" ELSE "/" \o ToString(den))
\* the product of two such numbers
IsProj(j, m) == Even(j + m) /\ MAbs(m) <= j
Tri(a, b, c) == Even(a + b + c) /\ c >= MAbs(a - b) /\ c <= a + b
H(x) == x \div 2

\* ---- Clebsch-Gordan coefficient <j1 m1 j2 m2 | J M>: pair (exponents, integer) for sgn sqrt(v n^2)
RECURSIVE SumNu(_, _, _, _, _, _, _)
SumNu(j1, m1, j2, m2, J, nu, top) ==
  IF nu > top THEN 0 ELSE
  (IF Even(nu) THEN 1 ELSE -1) * C(H(j1 + j2 - J), nu) * C(H(J + j1 - j2), H(j1 - m1) - nu) * C(H(J + j2 - j1), H(j2 + m2) - nu)
  + SumNu(j1, m1, j2, m2, J, nu + 1, top)
CGN(j1, m1, j2, m2, J) == IF IsProj(j1, m1) /\ IsProj(j2, m2) /\ Tri(j1, j2, J) /\ IsProj(J, m1 + m2) THEN SumNu(j1, m1, j2, m2, J, 0, H(j1 + j2 - J)) ELSE 0
CGV(j1, m1, j2, m2, J) ==
  VSum(<<VecOf(J + 1), F(H(j1 + m1)), F(H(j1 - m1)), F(H(j2 + m2)), F(H(j2 - m2)), F(H(J + m1 + m2)), F(H(J - m1 - m2)),
         Inv(F(H(J + j1 + j2) + 1)), Inv(F(H(j1 + j2 - J))), Inv(F(H(J + j1 - j2))), Inv(F(H(J + j2 - j1)))>>, One)
CG(j1, m1, j2, m2, J, M) == IF M # m1 + m2 THEN "0" ELSE LET n == CGN(j1, m1, j2, m2, J) IN IF n = 0 THEN "0" ELSE Number(CGV(j1, m1, j2, m2, J), n)

\* ---- reduced rotation element d^j_{mn} at (1 + cos)/2 = p/q
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
Lo(m, n) == MMax(0, H(m - n))
Hi(j, m, n) == MMin(H(j + m), H(j - n))
DA(j, m, n, s) == j + H(m - n) - 2 * s              \* power of cos(b/2)
DB2(j, m, n, s) == H(n - m) + 2 * s                 \* power of sin(b/2)
RECURSIVE DSum(_, _, _, _, _, _)
DSum(j, m, n, p, q, s) ==
  IF s > Hi(j, m, n) THEN 0 ELSE
  (IF Even(s) THEN 1 ELSE -1) * C(H(j + m), s) * C(H(j - m), H(j - n) - s)
     * IPow(p, H(DA(j, m, n, s) - DA(j, m, n, Hi(j, m, n)))) * IPow(q - p, H(DB2(j, m, n, s) - DB2(j, m, n, Lo(m, n))))
  + DSum(j, m, n, p, q, s + 1)
DN(j, m, n, p, q) ==
  IF ~IsProj(j, m) \/ ~IsProj(j, n) THEN 0
  ELSE IF (p = 0 /\ DA(j, m, n, Hi(j, m, n)) > 0) \/ (p = q /\ DB2(j, m, n, Lo(m, n)) > 0) THEN 0
  ELSE DSum(j, m, n, p, q, Lo(m, n))
DV(j, m, n, p, q) ==
  LET a == DA(j, m, n, Hi(j, m, n)) b == DB2(j, m, n, Lo(m, n))
  IN VSum(<<F(H(j + n)), F(H(j - n)), Inv(F(H(j + m))), Inv(F(H(j - m))), IF p = 0 THEN One ELSE VTimes(VecOf(p), a), IF p = q THEN One ELSE VTimes(VecOf(q - p), b),
            VTimes(VecOf(q), -(a + b + 2 * (Hi(j, m, n) - Lo(m, n))))>>, One)
D(j, m, n, p, q) == LET k == DN(j, m, n, p, q) IN IF k = 0 THEN "0" ELSE Number(DV(j, m, n, p, q), k)
\* D(phi) = (phase)^(n - m) d, phase = i^k: real and imaginary part
DPhase(j, m, n, p, q, k) ==
  LET N == DN(j, m, n, p, q)
      e == (k * H(n - m)) % 4
      x == IF N = 0 THEN "0" ELSE Number(DV(j, m, n, p, q), IF e \in {2, 3} THEN -N ELSE N)
  IN IF e % 2 = 0 THEN <<x, "0">> ELSE <<"0", x>>

\* ---- couplings of a two-body decay
LSOf(J, j1, j2) == {ls \in (0 .. H(J + j1 + j2)) \X (0 .. (j1 + j2)) : Tri(j1, j2, ls[2]) /\ Tri(2 * ls[1], ls[2], J)}
ParOK(P, p1, p2, l) == P = p1 * p2 * (IF Even(l) THEN 1 ELSE -1)
LSIn(J, P, j1, p1, j2, p2, cons) == {ls \in LSOf(J, j1, j2) : cons => ParOK(P, p1, p2, ls[1])}
LSList(J, P, j1, p1, j2, p2, cons) ==
  LET S == LSIn(J, P, j1, p1, j2, p2, cons)
      RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o go(T \ {x})
  IN go(S)
LRange(J, P, j1, p1, j2, p2, cons) ==
  LET S == {ls[1] : ls \in LSIn(J, P, j1, p1, j2, p2, cons)}
  IN IF S = {} THEN <<999, 999>> ELSE <<CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y>>

\* ---- helicity couplings of an (L, S) wave: sqrt((2L+1)/(2J+1)) <L 0 S m|J m> <j1 m1 j2 -m2|S m>, m = m1 - m2; those that do not vanish
Coupling(J, L, S, j1, j2, m1, m2) ==
  LET m == m1 - m2
      a == CGN(L, 0, S, m, J)
      b == CGN(j1, m1, j2, -m2, S)
  IN IF a = 0 \/ b = 0 THEN "0"
     ELSE Number(VSum(<<VecOf(L + 1), Inv(VecOf(J + 1)), CGV(L, 0, S, m, J), CGV(j1, m1, j2, -m2, S)>>, One), a * b)
Proj(j) == [k \in 1 .. (j + 1) |-> 2 * (k - 1) - j]
RECURSIVE Flat(_, _, _, _, _, _, _)
Flat(J, L, S, j1, j2, k, acc) ==
  IF k > (j1 + 1) * (j2 + 1) THEN acc ELSE
  LET m1 == Proj(j1)[((k - 1) \div (j2 + 1)) + 1]
      m2 == Proj(j2)[((k - 1) % (j2 + 1)) + 1]
      c == Coupling(J, L, S, j1, j2, m1, m2)
  IN Flat(J, L, S, j1, j2, k + 1, IF c = "0" THEN acc ELSE Append(acc, <<m1, m2, c>>))
Couplings(J, L, S, j1, j2) == Flat(J, L, S, j1, j2, 1, <<>>)

\* ---- observations
Wide(j) == [k \in 1 .. (2 * j + 9) |-> k - 5 - j]          \* all projections (and others) from -j-2 to j+2 in half steps of twice the value
AskCG(o) == LET w1 == Wide(o.a) w2 == Wide(o.b) IN
  <<[x \in DOMAIN w1 |-> [y \in DOMAIN w2 |-> CG(o.a, w1[x], o.b, w2[y], o.c, w1[x] + w2[y])]],
    [x \in DOMAIN w1 |-> CG(o.a, w1[x], o.b, 0, o.c, w1[x] + 2)]>>
AskD(o) == LET w == Wide(o.j) IN [x \in DOMAIN w |-> [y \in DOMAIN w |-> D(o.j, w[x], w[y], o.p, o.q)]]
Delta(a, b) == IF a = b THEN 1 ELSE 0
\* an observation with a number too large to show is left open
Open2(t) == \E x \in DOMAIN t : \E y \in DOMAIN t[x] : t[x][y] = "?"
Obs(o) == CASE o.f = "cg"  -> LET a == AskCG(o) IN IF Open2(a[1]) \/ Open2(<<a[2]>>) THEN "?" ELSE a
            [] o.f = "d"   -> LET a == AskD(o) IN IF Open2(a) THEN "?" ELSE a
            [] o.f = "D"   -> LET a == DPhase(o.j, o.m, o.n, o.p, o.q, o.k) IN IF Open2(<<a>>) THEN "?" ELSE a
            [] o.f = "ls"  -> [k \in 1..2 |-> <<LSList(o.h, o.P, o.a, o.p1, o.b, o.p2, k = 1), LRange(o.h, o.P, o.a, o.p1, o.b, o.p2, k = 1)>>]
            [] o.f = "rec" -> LET a == Couplings(o.h, o.L, o.S, o.a, o.b) IN IF \E k \in DOMAIN a : a[k][3] = "?" THEN "?" ELSE a
            \* sums over products of coefficients
            [] o.f = "orth"  -> IF Tri(o.a, o.b, o.c) /\ Tri(o.a, o.b, o.d) /\ IsProj(o.c, o.m) /\ IsProj(o.d, o.m) THEN Delta(o.c, o.d) ELSE 0
            [] o.f = "dorth" -> Delta(o.m, o.n)
            \* completeness: for fixed m1, m2 the squares over J, and for another pair the products, give the unit matrix
            [] o.f = "full"  -> Delta(o.m, o.n)
Do(s, o) == [s |-> s, o |-> Obs(o)]
=============================================================================
