----------------------------- MODULE ErrProp -----------------------------
(* Propagation of uncertainties.  A propagator is a list of parameters       *)
(* (positions) and a covariance matrix; functions are quadratics of all      *)
(* parameters, for which the one-sigma symmetric difference is the gradient. *)
EXTENDS Fit
E0 == [par |-> <<>>, ks |-> <<>>, c |-> <<>>, made |-> FALSE]
Grad(s, fn) == [i \in DOMAIN s.ks |-> Dx(fn, Values(s.par), s.ks[i])]
Quad(a, c, b) == SumUp([i \in DOMAIN a |-> SumUp([j \in DOMAIN b |-> a[i] * c[i][j] * b[j]], DOMAIN b)], DOMAIN a)
CovOf(s, fns) == LET g == TLCEval([k \in DOMAIN fns |-> Grad(s, fns[k])]) IN [i \in DOMAIN fns |-> [j \in DOMAIN fns |-> Quad(g[i], s.c, g[j])]]
Vals(s, fns) == [k \in DOMAIN fns |-> F(fns[k], Values(s.par))]
Diag(ps, ks) == [i \in DOMAIN ks |-> [j \in DOMAIN ks |-> IF i = j THEN ps[ks[i]].e * ps[ks[i]].e ELSE 0]]
FreeOf(ps, ks) == SelectSeq(ks, LAMBDA k : ps[k].f = "Free" /\ ps[k].e # 0)
AllOf(ps) == [k \in DOMAIN ps |-> k]
Made(s, o) == CASE o.how = "set" -> LET ks == FreeOf(s.par, AllOf(s.par)) IN <<ks, Diag(s.par, ks)>>
                [] o.how = "list" -> LET ks == FreeOf(s.par, o.ks) IN <<ks, Diag(s.par, ks)>>
                [] o.how = "cov" -> <<o.ks, o.c>>
                [] o.how = "result" -> LET ks == Float(s.par, o.ext) IN <<ks, [i \in DOMAIN ks |-> [j \in DOMAIN ks |-> o.c[ks[i]][ks[j]]]]>>
ShowE(ps, ks, c) == <<[i \in DOMAIN ks |-> ps[ks[i]].n], c>>
PosIn(ks, k) == IF \E i \in DOMAIN ks : ks[i] = k THEN CHOOSE i \in DOMAIN ks : ks[i] = k ELSE 0
\* the sum of two propagators: parameters of both, covariances added
Union(s, r) == LET ks == s.ks \o SelectSeq(r[1], LAMBDA k : PosIn(s.ks, k) = 0)
                   part(a, c, i, j) == LET x == PosIn(a, ks[i]) y == PosIn(a, ks[j]) IN IF x = 0 \/ y = 0 THEN 0 ELSE c[x][y]
               IN <<ks, [i \in DOMAIN ks |-> [j \in DOMAIN ks |-> part(s.ks, s.c, i, j) + part(r[1], r[2], i, j)]]>>
\* the best combination of two estimates of covariance c, times the determinant of its weights
Den(c) == c[1][1] + c[2][2] - 2 * c[1][2]
Comb(c, v) == <<v[1] * (c[2][2] - c[1][2]) + v[2] * (c[1][1] - c[1][2]), c[1][1] * c[2][2] - c[1][2] * c[1][2], c[2][2] - c[1][2], c[1][1] - c[1][2]>>
\* lower triangular root times a vector of normal deviates
Perturbed(s, o) == [k \in DOMAIN s.par |-> LET i == PosIn(o.ks, k) IN s.par[k].v + (IF i = 0 THEN 0 ELSE SumUp([j \in DOMAIN o.ks |-> o.r[i][j] * o.g[j]], DOMAIN o.ks))]
EStep(s, o) ==
   CASE o.f = "set" -> [s |-> [E0 EXCEPT !.par = o.ps], o |-> Values(o.ps)]
     [] o.f = "make" -> LET m == TLCEval(Made(s, o)) IN [s |-> [s EXCEPT !.ks = m[1], !.c = m[2], !.made = TRUE], o |-> ShowE(s.par, m[1], m[2])]
     [] o.f = "add" -> LET m == TLCEval(Union(s, Made(s, o.of))) IN [s |-> [s EXCEPT !.ks = m[1], !.c = m[2]], o |-> ShowE(s.par, m[1], m[2])]
     [] o.f = "reset" -> [s |-> [s EXCEPT !.ks = <<>>, !.c = <<>>], o |-> 0]
     \* afterwards the parameters, and whatever the functions cached, are at the central values
     [] o.f = "error" -> [s |-> s, o |-> <<CovOf(s, <<o.fn>>)[1][1], Values(s.par), 1>>]
     [] o.f = "vector" -> [s |-> s, o |-> LET c == CovOf(s, o.fns) IN <<[k \in DOMAIN o.fns |-> c[k][k]], Values(s.par), 1>>]
     [] o.f = "covariance" -> [s |-> s, o |-> LET c == CovOf(s, o.fns) IN <<c, Values(s.par)>>]
     [] o.f = "correlation" -> [s |-> s, o |-> <<CovOf(s, o.fns), Values(s.par)>>]
     [] o.f = "combine" -> [s |-> s, o |-> LET c == CovOf(s, o.fns) IN Comb(c, Vals(s, o.fns))]
     [] o.f = "gauss" -> [s |-> s, o |-> <<Perturbed(s, o), Perturbed(s, o), Values(s.par)>>]
=============================================================================
