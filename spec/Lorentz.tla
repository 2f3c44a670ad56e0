------------------------------ MODULE Lorentz ------------------------------
(* Rotations and boosts, exactly.  A transform is [t, q] with q = <<w,x,y,z>> *)
(* integers: a rotation about (x,y,z) with cos(half angle) : sin(half angle)  *)
(* = w : |xyz|, or a boost along (x,y,z) with cosh(half rapidity) :           *)
(* sinh(half rapidity) = w : |xyz|.  Its matrices are integer matrices over   *)
(* sqrt(N) (spinors) or N (vectors), N the (Minkowski) norm of q.  Matrices   *)
(* are kept without their denominators, which multiply: a sequence shows the  *)
(* integers.  Vectors are ordered (x, y, z, t).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- Gaussian integers and matrices
GZ == <<0, 0>>
G1 == <<1, 0>>
GP(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GM(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GN(a) == <<-a[1], -a[2]>>
GS(k, a) == <<k * a[1], k * a[2]>>
\* the product, written out; the bound variable p makes TLC evaluate the factors once
Mul(A, B) == CHOOSE z \in {TLCEval([i \in DOMAIN p[1] |-> [j \in DOMAIN p[2][1] |-> IF Len(p[2]) = 4 THEN
     <<p[1][i][1][1]*p[2][1][j][1]-p[1][i][1][2]*p[2][1][j][2]+p[1][i][2][1]*p[2][2][j][1]-p[1][i][2][2]*p[2][2][j][2]+p[1][i][3][1]*p[2][3][j][1]-p[1][i][3][2]*p[2][3][j][2]+p[1][i][4][1]*p[2][4][j][1]-p[1][i][4][2]*p[2][4][j][2],
     p[1][i][1][1]*p[2][1][j][2]+p[1][i][1][2]*p[2][1][j][1]+p[1][i][2][1]*p[2][2][j][2]+p[1][i][2][2]*p[2][2][j][1]+p[1][i][3][1]*p[2][3][j][2]+p[1][i][3][2]*p[2][3][j][1]+p[1][i][4][1]*p[2][4][j][2]+p[1][i][4][2]*p[2][4][j][1]>>
  ELSE <<p[1][i][1][1]*p[2][1][j][1]-p[1][i][1][2]*p[2][1][j][2]+p[1][i][2][1]*p[2][2][j][1]-p[1][i][2][2]*p[2][2][j][2],
     p[1][i][1][1]*p[2][1][j][2]+p[1][i][1][2]*p[2][1][j][1]+p[1][i][2][1]*p[2][2][j][2]+p[1][i][2][2]*p[2][2][j][1]>>]]) : p \in {<<A, B>>}} : TRUE
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN G1 ELSE GZ]]
Scale(k, A) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> GS(k, A[i][j])]])
Plus(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> GP(A[i][j], B[i][j])]])
Minus(A, B) == Plus(A, Scale(-1, B))
Dagger(A) == TLCEval([i \in DOMAIN A[1] |-> [j \in DOMAIN A |-> <<A[j][i][1], -A[j][i][2]>>]])
Real(A) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> <<A[i][j], 0>>]]
Blocks(a, b, c, d) == [i \in 1..4 |-> [j \in 1..4 |-> IF i <= 2 THEN (IF j <= 2 THEN a[i][j] ELSE b[i][j - 2]) ELSE (IF j <= 2 THEN c[i - 2][j] ELSE d[i - 2][j - 2])]]

\* ---- transforms
Sq(x) == x * x
Nrm(T) == IF T.t = "r" THEN Sq(T.q[1]) + Sq(T.q[2]) + Sq(T.q[3]) + Sq(T.q[4]) ELSE Sq(T.q[1]) - Sq(T.q[2]) - Sq(T.q[3]) - Sq(T.q[4])
Inverse(T) == [t |-> T.t, q |-> <<T.q[1], -T.q[2], -T.q[3], -T.q[4]>>]
\* a sigma.(x, y, z)
SigmaDot(x, y, z) == <<<<<<z, 0>>, <<x, -y>>>>, <<<<x, y>>, <<-z, 0>>>>>>
Times(g, A) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> GM(g, A[i][j])]])
SpinorOf(T) ==
  LET s == SigmaDot(T.q[2], T.q[3], T.q[4]) w == Scale(T.q[1], Id(2))
  IN IF T.t = "r" THEN Plus(w, Times(<<0, -1>>, s)) ELSE Plus(w, s)
BispinorOf(T) ==
  LET s == SigmaDot(T.q[2], T.q[3], T.q[4]) w == Scale(T.q[1], Id(2)) z == Scale(0, Id(2))
  IN IF T.t = "r" THEN Blocks(SpinorOf(T), z, z, SpinorOf(T)) ELSE Blocks(w, Scale(-1, s), Scale(-1, s), w)
VectorOf(T) ==
  LET w == T.q[1] x == T.q[2] y == T.q[3] z == T.q[4]
  IN Real(IF T.t = "r"
     THEN <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y), 0>>,
            <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x), 0>>,
            <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z, 0>>,
            <<0, 0, 0, Nrm(T)>>>>
     ELSE <<<<Nrm(T) + 2*x*x, 2*x*y, 2*x*z, -2*w*x>>,
            <<2*x*y, Nrm(T) + 2*y*y, 2*y*z, -2*w*y>>,
            <<2*x*z, 2*y*z, Nrm(T) + 2*z*z, -2*w*z>>,
            <<-2*w*x, -2*w*y, -2*w*z, w*w + x*x + y*y + z*z>>>>)
Reps == <<"s", "b", "v">>
Rep(T, r) == TLCEval(IF r = "s" THEN SpinorOf(T) ELSE IF r = "b" THEN BispinorOf(T) ELSE VectorOf(T))
Unit(r) == IF r = "s" THEN Id(2) ELSE Id(4)
\* a sequence applies its first element first
RECURSIVE SeqRep(_, _)
SeqRep(q, r) == IF q = <<>> THEN Unit(r) ELSE Mul(Rep(q[Len(q)], r), SeqRep(SubSeq(q, 1, Len(q) - 1), r))
InvSeq(q) == [k \in DOMAIN q |-> Inverse(q[Len(q) + 1 - k])]
\* one after another on a column
RECURSIVE Steps(_, _, _)
Steps(q, r, v) == IF q = <<>> THEN v ELSE Steps(Tail(q), r, Mul(Rep(q[1], r), v))
Col(v) == [k \in DOMAIN v |-> <<v[k]>>]
Flat1(A) == [k \in DOMAIN A |-> A[k][1]]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Prim(q) == LET g == Gcd(Abs(q[1]), Gcd(Abs(q[2]), Gcd(Abs(q[3]), Abs(q[4])))) IN [k \in 1..4 |-> IF q[k] < 0 THEN -(Abs(q[k]) \div g) ELSE q[k] \div g]
\* ---- frames: rotate the momentum onto the z axis (about the axis perpendicular to both), for the second particle of a pair
\* rotate it onto -z and turn by pi about x; then, if there is a mass, boost to rest.  p = <<px, py, pz, |p|, E, m>>, integers
Wick(p, ve) ==
  LET R(q) == [t |-> "r", q |-> Prim(q)]
      up == IF p[1] = 0 /\ p[2] = 0 THEN (IF p[3] >= 0 THEN <<1, 0, 0, 0>> ELSE <<0, 0, -1, 0>>) ELSE <<p[4] + p[3], p[2], -p[1], 0>>
      dn == IF p[1] = 0 /\ p[2] = 0 THEN (IF p[3] >= 0 THEN <<0, 0, 1, 0>> ELSE <<1, 0, 0, 0>>) ELSE <<p[4] - p[3], -p[2], p[1], 0>>
      rot == IF ve = 1 THEN <<R(up)>> ELSE <<R(dn), R(<<0, 1, 0, 0>>)>>
  IN IF p[6] = 0 THEN rot ELSE Append(rot, [t |-> "b", q |-> IF p[4] = 0 THEN <<1, 0, 0, 0>> ELSE Prim(<<p[5] + p[6], 0, 0, p[4]>>)])

\* ---- matrices of the algebra, as (integer) tables: sums of products
Sig(k) == IF k = 1 THEN SigmaDot(1, 0, 0) ELSE IF k = 2 THEN SigmaDot(0, 1, 0) ELSE SigmaDot(0, 0, 1)
ZZ == Scale(0, Id(2))
\* gamma^1, gamma^2, gamma^3, gamma^0, gamma^5 in the Dirac representation
Gam(k) == IF k <= 3 THEN Blocks(ZZ, Sig(k), Scale(-1, Sig(k)), ZZ) ELSE IF k = 4 THEN Blocks(Id(2), ZZ, ZZ, Scale(-1, Id(2))) ELSE Blocks(ZZ, Id(2), Id(2), ZZ)
Metric(i) == IF i = 4 THEN 1 ELSE -1

\* ---- laws
Prod(q) == LET RECURSIVE go(_) go(k) == IF k = 0 THEN 1 ELSE Nrm(q[k]) * go(k - 1) IN go(Len(q))
G4 == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN <<Metric(i), 0>> ELSE GZ]]
RealT(A) == [i \in 1..4 |-> [j \in 1..4 |-> A[j][i]]]
KeepsMetric(q) == LET L == SeqRep(q, "v") IN Mul(RealT(L), Mul(G4, L)) = Scale(Sq(Prod(q)), G4)
Undone(q) == \A k \in 1..3 : LET r == Reps[k] IN Mul(SeqRep(InvSeq(q), r), SeqRep(q, r)) = Scale(IF r = "v" THEN Sq(Prod(q)) ELSE Prod(q), Unit(r))
\* A (t - sigma.x) A^dagger = t' - sigma.x'
XMat(v) == Minus(Scale(v[4], Id(2)), SigmaDot(v[1], v[2], v[3]))
Ints(A) == [k \in DOMAIN A |-> A[k][1][1]]
SpinorLaw(q, v) == LET A == SeqRep(q, "s") IN Mul(A, Mul(XMat(v), Dagger(A))) = XMat(Ints(Mul(SeqRep(q, "v"), Real(Col(v)))))
RECURSIVE LinGam(_, _, _)
LinGam(L, m, n) == IF n = 0 THEN Scale(0, Id(4)) ELSE Plus(Times(L[m][n], Gam(n)), LinGam(L, m, n - 1))
\* B^-1 gamma^m B = L^m_n gamma^n
BispinorLaw(q) == LET B == SeqRep(q, "b") Bi == SeqRep(InvSeq(q), "b") L == SeqRep(q, "v") IN \A m \in 1..4 : Mul(Bi, Mul(Gam(m), B)) = LinGam(L, m, 4)
WickLaw(p, ve) == LET s == Wick(p, ve) r == Ints(Mul(SeqRep(s, "v"), Real(Col(<<p[1], p[2], p[3], p[5]>>))))
                  IN r = (IF p[6] = 0 THEN <<0, 0, Prod(s) * p[4], Prod(s) * p[5]>> ELSE <<0, 0, 0, Prod(s) * p[6]>>)

\* ---- the machine: two sequences
Zero == <<<<>>, <<>>>>
Show(q) == <<Len(q), SeqRep(q, "s"), SeqRep(q, "b"), SeqRep(q, "v")>>
Set(s, r, q) == [s |-> [s EXCEPT ![r] = q], o |-> Show(q)]
Out(s, o) == [s |-> s, o |-> o]
AlgObs == <<[i \in 1..5 |-> [j \in 1..5 |-> IF i = j THEN (IF i = 5 THEN 2 ELSE 2 * Metric(i)) ELSE 0]],
            [i \in 1..5 |-> Gam(i)], [i \in 1..3 |-> Sig(i)], [i \in 1..3 |-> Blocks(Sig(i), ZZ, ZZ, Sig(i))],
            [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 0 ELSE IF j = (i % 3) + 1 THEN 6 - i - j ELSE -(6 - i - j)]],
            [i \in 1..8 |-> [j \in 1..8 |-> IF i = j THEN 2 ELSE 0]]>>
Do(s, o) ==
  CASE o.f = "new"   -> Set(s, o.r, <<>>)
    [] o.f = "one"   -> Set(s, o.r, <<o.T>>)
    [] o.f = "pair"  -> Set(s, o.r, <<o.T, o.U>>)
    [] o.f = "push"  -> Set(s, o.r, Append(s[o.r], o.T))
    [] o.f = "app"   -> Set(s, o.r, s[o.r] \o s[o.a])
    [] o.f = "join"  -> Set(s, o.r, s[o.a] \o s[o.b])
    [] o.f = "inv"   -> Set(s, o.r, InvSeq(s[o.a]))
    [] o.f = "copy"  -> Set(s, o.r, s[o.a])
    [] o.f = "clear" -> Set(s, o.r, <<>>)
    [] o.f = "wick"  -> Set(s, o.r, Wick(o.p, o.ve))
    \* apply to a column: a vector, a bispinor or a spinor
    [] o.f = "apply" -> Out(s, Flat1(Steps(s[o.r], o.rep, Col(o.v))))
    \* a single transform: its matrix, its inverse's, and its action
    [] o.f = "tr"    -> Out(s, [k \in 1..3 |-> <<Rep(o.T, Reps[k]), Rep(Inverse(o.T), Reps[k])>>])
    [] o.f = "act"   -> Out(s, Flat1(Mul(Rep(o.T, o.rep), Col(o.v))))
    [] o.f = "len"   -> LET v == Ints(Mul(SeqRep(s[o.r], "v"), Real(Col(o.v)))) IN Out(s, Sq(v[4]) - Sq(v[1]) - Sq(v[2]) - Sq(v[3]))
    [] o.f = "alg"   -> Out(s, AlgObs)
=============================================================================
