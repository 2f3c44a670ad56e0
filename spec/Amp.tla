-------------------------------- MODULE Amp --------------------------------
(* The amplitude of a whole decay: line shapes of every step times the spin  *)
(* factor built with the couplings of Spin, summed over the exchanges of     *)
(* identical final-state particles.  Momenta and masses are integers.        *)
EXTENDS Spin, FiniteSets
\* a final-state particle with its place in the event, a step with line shape, orbital momentum, coupling and daughters
Leaf(n, i) == [n |-> n, i |-> i, v |-> "", ls |-> "", l |-> 0, d |-> <<>>]
Step2(n, ls, l, v, a, b) == [n |-> n, i |-> 0, v |-> v, ls |-> ls, l |-> l, d |-> <<a, b>>]
Step3(n, ls, a, b, c) == [n |-> n, i |-> 0, v |-> "", ls |-> ls, l |-> 0, d |-> <<a, b, c>>]
Step1(n, ls, a) == [n |-> n, i |-> 0, v |-> "", ls |-> ls, l |-> 0, d |-> <<a>>]
IsLeaf(t) == t.d = <<>>
Kind(n) == CASE n \in {"pi+", "pi-", "pi0", "K+", "K-", "D0", "B0", "f(0)(980)0", "K(0)*(1430)bar0", "eta0", "K0", "K0S0"} -> "S"
             [] n \in {"rho(770)0", "K*(892)bar0", "K(1)(1270)bar-", "a(1)(1260)+", "J/psi0", "omega(782)0", "phi(1020)0"} -> "V"
             [] n \in {"f(2)(1270)0"} -> "T"
             [] n \in {"p+", "Lambda(c)+", "Lambda(1405)0"} -> "f"
             [] n \in {"pbar-"} -> "F"
             [] n \in {"Lambda(1520)0", "Delta(1232)++"} -> "r"
Ferm(n) == Kind(n) \in {"f", "F"}
\* masses of the particles that are taken to be stable (the driver sets these)
MassOf(n) == CASE n \in {"pi+", "pi-", "pi0"} -> 2 [] n \in {"K+", "K-", "K0", "K0S0"} -> 3 [] n = "eta0" -> 5 [] n \in {"p+", "pbar-"} -> 1 [] n = "J/psi0" -> 4 [] n = "Lambda(c)+" -> 4
VSum(a, b) == [i \in I4 |-> a[i] + b[i]]
RECURSIVE PofT(_, _)
PofT(t, ev) == IF IsLeaf(t) THEN ev[t.i] ELSE LET RECURSIVE sum(_) sum(k) == IF k = 0 THEN <<0, 0, 0, 0>> ELSE VSum(sum(k - 1), PofT(t.d[k], ev)) IN TLCEval(sum(Len(t.d)))
MassSq(t, ev) == IF IsLeaf(t) THEN MassOf(t.n) * MassOf(t.n) ELSE LET p == PofT(t, ev) IN RDot(p, p)
\* ---- exact numbers
RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdAll(_, _, _)
GcdAll(q, k, x) == IF x = 1 \/ k > Len(q) THEN x ELSE GcdAll(q, k + 1, Gcd2(Gcd2(x, Abs(q[k][1])), Abs(q[k][2])))
Reduce(q, n) == LET x == GcdAll(q, 1, Abs(n)) sg == IF n < 0 THEN -1 ELSE 1
                IN IF x = 0 THEN Assert(FALSE, "zero denominator") ELSE <<TLCEval([k \in DOMAIN q |-> <<(sg * q[k][1]) \div x, (sg * q[k][2]) \div x>>]), Abs(n) \div x>>
\* ---- external states in the basis with the spin quantised along z at rest; spinors without the factor sqrt((E+m)/2m), vectors of spin +-1 without 1/sqrt(2)
Spinor(n, p, h) == LET e == p[4] + MassOf(n) z == <<p[1], p[2]>> zb == <<p[1], -p[2]>> pz == C(p[3]) up == IF h = 1 THEN <<C(e), CZ>> ELSE <<CZ, C(e)>> dn == IF h = 1 THEN <<pz, z>> ELSE <<zb, CScl(-1, pz)>>
                   IN <<IF Kind(n) = "f" THEN up \o dn ELSE dn \o up, e>>
Vector(n, p, h) == LET m == MassOf(n) e == p[4] + m w == m * e IN
                   CASE h = 0 -> <<<<C(p[1] * p[3]), C(p[2] * p[3]), C(w + p[3] * p[3]), C(p[3] * e)>>, w>>
                     [] h = 1 -> LET z == <<p[1], p[2]>> IN <<VScl(-1, <<CAdd(C(w), CScl(p[1], z)), CAdd(<<0, w>>, CScl(p[2], z)), CScl(p[3], z), CScl(e, z)>>), w>>
                     [] h = -1 -> LET z == <<p[1], -p[2]>> IN <<<<CAdd(C(w), CScl(p[1], z)), CAdd(<<0, -w>>, CScl(p[2], z)), CScl(p[3], z), CScl(e, z)>>, w>>
RECURSIVE Spin1(_, _, _)
\* the spin tensor of a particle: components and denominator
Spin1(t, ev, pol) ==
  IF IsLeaf(t) THEN IF Kind(t.n) = "S" THEN <<<<C(1)>>, 1>> ELSE IF Kind(t.n) = "V" THEN Vector(t.n, ev[t.i], pol[t.i]) ELSE Spinor(t.n, ev[t.i], pol[t.i])
  ELSE IF Len(t.d) = 1 THEN Spin1(t.d[1], ev, pol)
  ELSE IF Len(t.d) = 3 THEN (IF Kind(t.n) = "V" THEN Vc(Eps3(RVec(PofT(t.d[1], ev)), RVec(PofT(t.d[2], ev)), RVec(PofT(t.d[3], ev))), 1) ELSE <<<<C(1)>>, 1>>)
  ELSE LET a == Spin1(t.d[1], ev, pol) b == Spin1(t.d[2], ev, pol) pa == PofT(t.d[1], ev) pb == PofT(t.d[2], ev)
           r == Vertex(t.v, VSum(pa, pb), [i \in I4 |-> pa[i] - pb[i]], Shape(Kind(t.d[1].n), a[1]), Shape(Kind(t.d[2].n), b[1]))
       IN TLCEval(Reduce(r[1], r[2] * a[2] * b[2]))
\* ---- line shapes
LS(t, ev) == LET s == MassSq(t, ev) IN
             IF t.ls = "VC" THEN <<s - 1, 2>>
             ELSE LET s1 == MassSq(t.d[1], ev) s2 == MassSq(t.d[2], ev) IN
                  IF t.ls = "VA" THEN <<s1 - 2 * s2 + 1, s + t.l>> ELSE <<s2 - s + 3 * t.l, s1 - 3>>
RECURSIVE Prop(_, _)
Prop(t, ev) == IF IsLeaf(t) THEN C(1) ELSE LET RECURSIVE mul(_) mul(k) == IF k = 0 THEN LS(t, ev) ELSE CMul(mul(k - 1), Prop(t.d[k], ev)) IN TLCEval(mul(Len(t.d)))
\* ---- the sum over exchanges.  fs are the names by place in the event
Exch(fs) == {f \in [DOMAIN fs -> DOMAIN fs] : (\A i \in DOMAIN fs : fs[f[i]] = fs[i]) /\ \A i, j \in DOMAIN fs : i # j => f[i] # f[j]}
Sign(f, fs) == LET n == {x \in (DOMAIN fs) \X (DOMAIN fs) : x[1] < x[2] /\ Ferm(fs[x[1]]) /\ Ferm(fs[x[2]]) /\ f[x[1]] > f[x[2]]} IN IF \E k \in 0..15 : 2 * k = Cardinality(n) THEN 1 ELSE -1
\* the complete amplitude as <<re, im, denominator>>, without the 1/sqrt(number of exchanges)
Through(q, f) == TLCEval([i \in DOMAIN q |-> q[f[i]]])
One1(t, ev, head, pol, spin) ==
  LET ls == Prop(t, ev) p == PofT(t, ev) IN
  IF ~spin THEN <<<<ls>>, 1>>
  ELSE LET st == Spin1(t, ev, pol)
           r == CASE Kind(t.n) = "S" -> <<<<st[1][1]>>, st[2]>>
                  [] Kind(t.n) = "V" -> LET e == Vector(t.n, p, head) IN Reduce(<<Dot([i \in I4 |-> CConj(e[1][i])], st[1])>>, e[2] * st[2])
                  [] Kind(t.n) = "f" -> LET e == Spinor(t.n, p, head) IN Reduce(<<Row(Bar(e[1]), st[1])>>, e[2] * st[2])
       IN Reduce(<<CMul(ls, r[1][1])>>, r[2])
AddQ(a, b) == LET x == Gcd2(a[2], b[2]) u == b[2] \div x v == a[2] \div x IN Reduce(<<CAdd(CScl(u, a[1][1]), CScl(v, b[1][1]))>>, a[2] * u)
RECURSIVE SumX(_, _, _, _, _, _, _)
SumX(S, t, fs, ev, head, pol, md) ==
  IF S = {} THEN <<<<CZ>>, 1>>
  ELSE LET f == CHOOSE x \in S : TRUE
           a == TLCEval(One1(t, Through(ev, f), head, Through(pol, f), ~md.spin0))
           b == IF md.inco THEN Reduce(<<CMul(a[1][1], CConj(a[1][1]))>>, a[2] * a[2]) ELSE IF Sign(f, fs) = 1 THEN a ELSE <<<<CScl(-1, a[1][1])>>, a[2]>>
       IN TLCEval(AddQ(b, SumX(S \ {f}, t, fs, ev, head, pol, md)))
Identity1(fs) == [i \in DOMAIN fs |-> i]
Amplitude(t, fs, ev, head, pol, md) == LET r == SumX(IF md.nosym THEN {Identity1(fs)} ELSE Exch(fs), t, fs, ev, head, pol, md) IN <<r[1][1][1], r[1][1][2], r[2]>>
\* the factor under the root: exchanges, and two for a vector of spin +-1
Norm(t, fs, head, md) == (IF md.nosym THEN 1 ELSE Cardinality(Exch(fs))) * (IF Kind(t.n) = "V" /\ head # 0 /\ ~md.spin0 THEN 2 ELSE 1)
\* no step has a vanishing mass, steps with fermions have integer ones
RECURSIVE Good1(_, _)
Good1(t, ev) == IsLeaf(t) \/ (LET p == PofT(t, ev) m2 == RDot(p, p) IN m2 # 0 /\ (Kind(t.n) \in {"f", "F", "r"} => m2 > 0 /\ IsMass(p)) /\ \A k \in DOMAIN t.d : Good1(t.d[k], ev))
Good(t, fs, ev) == \A f \in Exch(fs) : Good1(t, Through(ev, f))
                   /\ (Kind(t.n) \in {"V", "f"} => Mass(PofT(t, ev)) = MassOf(t.n) /\ IsMass(PofT(t, ev)))
                   /\ \A i \in DOMAIN fs : Ferm(fs[i]) => RDot(ev[i], ev[i]) = MassOf(fs[i]) * MassOf(fs[i]) /\ ev[i][4] > 0
\* the numbers stay within the integers of the model checker
Fits1(t, ev, pol, sq) == LET ls == Prop(t, ev) st == Spin1(t, ev, pol) a == Abs(ls[1]) + Abs(ls[2]) + 1 IN Kind(t.n) # "S" \/ (Abs(st[1][1][1]) + Abs(st[1][1][2]) < (IF sq THEN 15000 ELSE 100000000) \div a /\ st[2] < (IF sq THEN 100 ELSE 20000))
Fits(t, fs, ev, pol, sq) == \A f \in Exch(fs) : Fits1(t, Through(ev, f), Through(pol, f), sq)
=============================================================================
