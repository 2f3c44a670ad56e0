------------------------------- MODULE MC_P14 -------------------------------
(* P14: every coupling of angular momenta up to Top (twice the value), with  *)
(* the algebraic laws of the coefficients checked on the specification.      *)
EXTENDS AngMom, IOUtils
VARIABLES st, h
Num1(s) == atoi(s)
Top == Num1(IOEnv.TOP)
Shard == Num1(IOEnv.SHARD)
Shards == Num1(IOEnv.SHARDS)
J0 == 0..Top
Angles == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>, <<2, 3>>}
CGs == {[f |-> "cg", a |-> a, b |-> b, c |-> c] : a \in J0, b \in J0, c \in 0 .. (Top + 1)}
Ds  == {[f |-> "d", j |-> j, p |-> x[1], q |-> x[2]] : j \in 0 .. (Top + 1), x \in Angles}
DPs == {o \in {[f |-> "D", j |-> j, m |-> m, n |-> n, p |-> x[1], q |-> x[2], k |-> k] : j \in J0, m \in -Top .. Top, n \in -Top .. Top, x \in {<<1, 4>>, <<1, 3>>}, k \in 0..3} : IsProj(o.j, o.m) /\ IsProj(o.j, o.n)}
LSs == {o \in {[f |-> "ls", h |-> x, P |-> P, a |-> a, p1 |-> p1, b |-> b, p2 |-> p2] : x \in 0 .. (Top + 2), a \in J0, b \in J0, P \in {-1, 1}, p1 \in {-1, 1}, p2 \in {-1, 1}} : Even(o.h + o.a + o.b)}
Recs == {[f |-> "rec", h |-> x, L |-> 2 * L, S |-> S, a |-> a, b |-> b] : x \in J0, L \in 0 .. ((Top + 2) \div 2), S \in 0 .. (Top + 1), a \in 0..MMin(Top, 4), b \in 0..MMin(Top, 4)}
Size(o) == IF o.f = "cg" THEN o.a + 3 * o.b + 7 * o.c ELSE IF o.f = "d" THEN o.j + 5 * o.p + o.q ELSE IF o.f = "D" THEN o.j + o.m + 3 * o.n + o.k + 20
           ELSE o.h + 3 * o.a + 5 * o.b + (IF o.f = "rec" THEN o.L + o.S ELSE 0)
OpsOf(s) == {o \in CGs \cup Ds \cup DPs \cup LSs \cup Recs : Size(o) % Shards = Shard}

\* ---- laws of the definition
RECURSIVE SumF(_, _)
SumF(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + SumF(S \ {x}, g)
Fac[n \in 0..12] == IF n = 0 THEN 1 ELSE n * Fac[n - 1]
W(j1, m1, j2, m2) == Fac[H(j1 + m1)] * Fac[H(j1 - m1)] * Fac[H(j2 + m2)] * Fac[H(j2 - m2)]
\* states of different J are orthogonal; their norm follows from the prefactor
OrthOK(a, b, c) ==
  \A c2 \in MAbs(a - b) .. (a + b) : Tri(a, b, c) /\ Tri(a, b, c2) =>
     \A M \in -MMin(c, c2) .. MMin(c, c2) : IsProj(c, M) /\ IsProj(c2, M) =>
        LET S == {m \in -a .. a : IsProj(a, m) /\ IsProj(b, M - m)}
            t == SumF(S, [m \in S |-> W(a, m, b, M - m) * CGN(a, m, b, M - m, c) * CGN(a, m, b, M - m, c2)])
        IN IF c # c2 THEN t = 0
           ELSE t * (c + 1) * Fac[H(c + M)] * Fac[H(c - M)] = Fac[H(c + a + b) + 1] * Fac[H(a + b - c)] * Fac[H(c + a - b)] * Fac[H(c + b - a)]
\* exchange of the two momenta: sign (-1)^(j1+j2-J)
ExOK(a, b, c) == \A m \in -a .. a, n \in -b .. b : Tri(a, b, c) => CGN(a, m, b, n, c) = (IF Even(H(a + b - c)) THEN 1 ELSE -1) * CGN(b, n, a, m, c)
\* rows of d have unit length: sum over n of d^2 (over the denominator q^j (j+m)! (j-m)!)
DOK(j, p, q) == \A m \in -j .. j : IsProj(j, m) =>
  LET S == {n \in -j .. j : IsProj(j, n)}
      term(n) == LET k == DN(j, m, n, p, q) a == DA(j, m, n, Hi(j, m, n)) b == DB2(j, m, n, Lo(m, n))
                 IN k * k * Fac[H(j + n)] * Fac[H(j - n)] * (IF a = 0 THEN 1 ELSE IPow(p, a)) * (IF b = 0 THEN 1 ELSE IPow(q - p, b))
  IN SumF(S, [n \in S |-> term(n)]) = Fac[H(j + m)] * Fac[H(j - m)] * IPow(q, j)
Laws(o) == CASE o.f = "cg" /\ o.a <= 4 /\ o.b <= 3 -> ExOK(o.a, o.b, o.c) /\ OrthOK(o.a, o.b, o.c)
             [] o.f = "d" /\ o.j <= 4 -> DOK(o.j, o.p, o.q)
             [] o.f = "ls" -> 
                  \A ls \in LSOf(o.h, o.a, o.b) : LSIn(o.h, o.P, o.a, o.p1, o.b, o.p2, TRUE) \cap LSIn(o.h, -o.P, o.a, o.p1, o.b, o.p2, TRUE) = {}
             [] OTHER -> TRUE
Checked(s, o) == IF Laws(o) THEN Do(s, o) ELSE Assert(FALSE, o)
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- Checked, Depth <- 1
=============================================================================
