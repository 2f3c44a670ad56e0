------------------------------- MODULE Fit -------------------------------
(* Fitting: which parameters the minimiser varies, what the function that    *)
(* it minimises is, where its outcome goes (parameters, errors, covariance), *)
(* the result of the fit, and the two ways of saving it.  The minimiser      *)
(* itself (Minuit) is an environment: it evaluates the function wherever it  *)
(* likes and ends with any point, errors, covariance and status.             *)
(* A parameter is [n, f, v, st, e, en, ep, lo, hi]; the function is a        *)
(* quadratic of all parameters, [l, q, m]: sum l_k v_k + q_k v_k^2 +         *)
(* m_k v_k v_(k+1).  All numbers are integers.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Par(n, f, v, st, lo, hi) == [n |-> n, f |-> f, v |-> v, st |-> st, e |-> st, en |-> -9999, ep |-> -9999, lo |-> lo, hi |-> hi]
Varies(p) == p.f \in {"Free", "Blind"}
Limited(p) == p.lo # 0 \/ p.hi # 0
RECURSIVE SumUp(_, _)
SumUp(f, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN f[k] + SumUp(f, ks \ {k})
F(fn, v) == LET t == [k \in DOMAIN v |-> fn.l[k] * v[k] + fn.q[k] * v[k] * v[k] + (IF k < Len(v) THEN fn.m[k] * v[k] * v[k + 1] ELSE 0)] IN SumUp(t, DOMAIN v)
\* its gradient
Dx(fn, v, k) == fn.l[k] + 2 * fn.q[k] * v[k] + (IF k < Len(v) THEN fn.m[k] * v[k + 1] ELSE 0) + (IF k > 1 THEN fn.m[k - 1] * v[k - 1] ELSE 0)
Values(ps) == [k \in DOMAIN ps |-> ps[k].v]
Mapping(ps) == SelectSeq([k \in DOMAIN ps |-> k], LAMBDA k : Varies(ps[k]))
At(ps, n) == CHOOSE k \in DOMAIN ps : ps[k].n = n
HasPar(ps, n) == \E k \in DOMAIN ps : ps[k].n = n
ShowPar(p) == <<p.n, p.f, p.v, p.e, p.en, p.ep, p.lo, p.hi>>
ShowPars(ps) == [k \in DOMAIN ps |-> ShowPar(ps[k])]
Vars(ps, map) == [i \in DOMAIN map |-> LET p == ps[map[i]] IN <<p.n, p.v, p.st, IF Limited(p) THEN <<p.lo, p.hi>> ELSE <<>>>>]
\* values with the varied parameters at x
Placed(ps, map, x) == [k \in DOMAIN ps |-> IF \E i \in DOMAIN map : map[i] = k THEN x[CHOOSE i \in DOMAIN map : map[i] = k] ELSE ps[k].v]
\* the minimised function: twice the log of each constraint is subtracted, and the start value where it is normalised
Penalty(cs, v) == SumUp([i \in DOMAIN cs |-> cs[i][3] * cs[i][3] * (v[cs[i][1]] - cs[i][2]) * (v[cs[i][1]] - cs[i][2])], DOMAIN cs)
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
Full(n, map, c) == [a \in 1..n |-> [b \in 1..n |-> IF (\E i \in DOMAIN map : map[i] = a) /\ (\E j \in DOMAIN map : map[j] = b) THEN c[CHOOSE i \in DOMAIN map : map[i] = a][CHOOSE j \in DOMAIN map : map[j] = b] ELSE 0]]
S0 == [par |-> <<>>, fn |-> <<>>, cs |-> <<>>, mini |-> <<>>, res |-> <<>>, file |-> <<>>]
NewMini(s, norm) == LET map == Mapping(s.par) IN [map |-> map, cov |-> Zero(Len(map)), st |-> 0, zero |-> 0, norm |-> norm, x |-> <<>>, e |-> <<>>, done |-> FALSE]
Fitted(s, o) ==
   LET mi == s.mini[1] z == IF mi.norm THEN F(s.fn[1], Values(s.par)) ELSE mi.zero
       minos(i) == IF o.minos = <<>> THEN <<o.e[i], o.e[i]>> ELSE o.minos[i]
       ps == [k \in DOMAIN s.par |-> IF \E i \in DOMAIN mi.map : mi.map[i] = k
                THEN LET i == CHOOSE i \in DOMAIN mi.map : mi.map[i] = k IN [s.par[k] EXCEPT !.v = o.x[i], !.e = o.e[i], !.en = minos(i)[1], !.ep = minos(i)[2]] ELSE s.par[k]]
       vals == [j \in DOMAIN o.pts |-> LET v == Placed(s.par, mi.map, o.pts[j]) IN F(s.fn[1], v) + Penalty(s.cs, v) - z]
   IN [s |-> [s EXCEPT !.par = ps, !.mini = <<[mi EXCEPT !.zero = z, !.cov = o.c, !.st = o.st, !.x = o.x, !.e = o.e, !.done = TRUE]>>],
       o |-> <<Vars(s.par, mi.map), vals, ShowPars(ps), o.st, F(s.fn[1], Values(ps)), o.c, Full(Len(ps), mi.map, o.c)>>]
\* asymmetric errors of one parameter, unless it sits within one error of a limit
Minos(s, o) ==
   LET mi == s.mini[1] p == s.par[o.k] near == Limited(p) /\ (p.v - p.e < p.lo \/ p.v + p.e > p.hi)
       back == Placed(s.par, mi.map, mi.x)
       ps == IF near THEN s.par ELSE [k \in DOMAIN s.par |-> IF k = o.k THEN [s.par[k] EXCEPT !.v = back[k], !.en = o.lo, !.ep = o.hi] ELSE [s.par[k] EXCEPT !.v = back[k]]]
   IN [s |-> [s EXCEPT !.par = ps], o |-> ShowPars(ps)]
Offset(ps, p) == IF p.f = "Blind" THEN ps[At(ps, p.n \o "_blind")].v ELSE 0
Scan(s, o) == LET p == s.par[o.k] IN [i \in 1..(o.b - o.a) |-> <<o.a + i - 1, F(s.fn[1], [Values(s.par) EXCEPT ![o.k] = o.a + i - 1 - Offset(s.par, p)])>>]
\* ---- the result of a fit
NPar(ps) == Cardinality({k \in DOMAIN ps : Varies(ps[k])})
Result(s) == [cov |-> Full(Len(s.par), s.mini[1].map, s.mini[1].cov), chi2 |-> 0, nb |-> 0, np |-> NPar(s.par), ll |-> F(s.fn[1], Values(s.par)), st |-> s.mini[1].st, ob |-> {}, fr |-> <<>>, own |-> <<>>]
OfCov(s, c) == [cov |-> c, chi2 |-> 0, nb |-> 0, np |-> NPar(s.par), ll |-> -999, st |-> -1, ob |-> {}, fr |-> <<>>, own |-> <<>>]
ParsOf(s, r) == IF r.own = <<>> THEN s.par ELSE r.own
Corr(c) == [i \in DOMAIN c |-> [j \in DOMAIN c |-> IF c[i][i] = 0 \/ c[j][j] = 0 THEN 0 ELSE c[i][j]]]
ObNames == <<"asym", "purity", "yield">>   \* in order
SortedOb(ob) == LET seq == SelectSeq(ObNames, LAMBDA n : \E x \in ob : x[1] = n) IN [k \in DOMAIN seq |-> CHOOSE x \in ob : x[1] = seq[k]]
ShowResult(s, r) == <<ShowPars(ParsOf(s, r)), r.cov, Corr(r.cov), <<r.chi2, r.nb, r.np, r.ll, r.st, r.nb - r.np - 1>>, SortedOb(r.ob), r.fr>>
Note(r, o) == [r EXCEPT !.chi2 = o.chi2, !.nb = o.nb, !.ob = {x \in @ : \A k \in DOMAIN o.ob : o.ob[k][1] # x[1]} \cup {o.ob[k] : k \in DOMAIN o.ob}, !.fr = @ \o o.fr]
Float(ps, ext) == SelectSeq([k \in DOMAIN ps |-> k], LAMBDA k : (Varies(ps[k]) \/ ext) /\ ps[k].e > 0)
Reduced(ps, c, ext) == LET ks == Float(ps, ext) IN <<[i \in DOMAIN ks |-> ps[ks[i]].n], [i \in DOMAIN ks |-> [j \in DOMAIN ks |-> c[ks[i]][ks[j]]]]>>
\* ---- option lines: a real parameter per line, or both parts of a complex one
Tail3(n) == IF Len(n) < 3 THEN "" ELSE SubSeq(n, Len(n) - 2, Len(n))
Stem(n) == SubSeq(n, 1, Len(n) - 3)
OptRe(p) == [n |-> p.n, f |-> p.f, v |-> p.v, st |-> p.e, lo |-> p.lo, hi |-> p.hi]
RECURSIVE OptOrder(_, _, _)
OptOrder(ps, k, done) ==
   IF k > Len(ps) THEN <<>>
   ELSE LET n == ps[k].n
            twin == IF Tail3(n) = "_Re" THEN Stem(n) \o "_Im" ELSE IF Tail3(n) = "_Im" THEN Stem(n) \o "_Re" ELSE ""
        IN IF n \in done THEN OptOrder(ps, k + 1, done)
           ELSE IF twin # "" /\ HasPar(ps, twin) THEN (IF Tail3(n) = "_Re" THEN <<k, At(ps, twin)>> \o OptOrder(ps, k + 1, done \cup {n, twin}) ELSE OptOrder(ps, k + 1, done))
           ELSE <<k>> \o OptOrder(ps, k + 1, done \cup {n})
ShowOpt(p) == <<p.n, p.f, p.v, p.st, p.lo, p.hi>>
Options(ps) == LET ks == OptOrder(ps, 1, {}) IN [i \in DOMAIN ks |-> ShowOpt(OptRe(ps[ks[i]]))]
\* the same by name, for templates
ByName(ps) == {ShowOpt(OptRe(ps[k])) : k \in DOMAIN ps}
\* the result in ROOT's format: blind values with their offset, asymmetric errors where there are some
External(s) == LET mi == s.mini[1] IN <<[i \in DOMAIN mi.map |-> LET p == s.par[mi.map[i]] IN <<p.n, mi.x[i] + Offset(s.par, p), mi.e[i], IF p.en # p.ep THEN <<p.en, p.ep>> ELSE <<>>>>], mi.cov, mi.st, F(s.fn[1], Values(s.par))>>
FStep(s, o) ==
   CASE o.f = "set" -> [s |-> [S0 EXCEPT !.par = o.ps, !.file = s.file], o |-> ShowPars(o.ps)]
     [] o.f = "minimiser" -> LET t == [s EXCEPT !.fn = <<o.fn>>, !.cs = <<>>] IN [s |-> [t EXCEPT !.mini = <<NewMini(t, o.norm)>>], o |-> Vars(t.par, Mapping(t.par))]
     [] o.f = "prepare" -> [s |-> [s EXCEPT !.mini = <<[NewMini(s, o.norm) EXCEPT !.zero = s.mini[1].zero, !.st = s.mini[1].st]>>], o |-> Vars(s.par, Mapping(s.par))]
     [] o.f = "constrain" -> [s |-> [s EXCEPT !.cs = Append(@, <<o.k, o.m, o.d>>)], o |-> 1]
     [] o.f = "flag" -> [s |-> [s EXCEPT !.par[o.k].f = o.to], o |-> 1]
     [] o.f = "value" -> [s |-> [s EXCEPT !.par[o.k].v = o.x], o |-> 1]
     [] o.f = "fit" -> Fitted(s, o)
     [] o.f = "minos" -> Minos(s, o)
     [] o.f = "scan" -> [s |-> s, o |-> <<Scan(s, o), ShowPars(s.par)>>]
     [] o.f = "external" -> [s |-> s, o |-> External(s)]
     [] o.f = "result" -> [s |-> [s EXCEPT !.res = <<Result(s)>>], o |-> ShowResult(s, Result(s))]
     [] o.f = "ofcov" -> [s |-> [s EXCEPT !.res = <<OfCov(s, o.c)>>], o |-> ShowResult(s, OfCov(s, o.c))]
     [] o.f = "note" -> LET r == Note(s.res[1], o) IN [s |-> [s EXCEPT !.res = <<r>>], o |-> ShowResult(s, r)]
     [] o.f = "copy" -> [s |-> s, o |-> ShowResult(s, s.res[1])]
     [] o.f = "reduced" -> [s |-> s, o |-> LET r == s.res[1] IN Reduced(ParsOf(s, r), r.cov, o.ext)]
     [] o.f = "write" -> [s |-> [s EXCEPT !.file = <<[s.res[1] EXCEPT !.own = ParsOf(s, s.res[1])]>>], o |-> 1]
     [] o.f = "read" -> LET r == s.file[1] IN [s |-> [s EXCEPT !.res = <<r>>], o |-> ShowResult(s, r)]
     [] o.f = "options" -> [s |-> s, o |-> Options(ParsOf(s, s.res[1]))]
     [] o.f = "template" -> [s |-> s, o |-> LET ps == ParsOf(s, s.res[1]) IN [i \in DOMAIN o.lines |-> IF o.lines[i][1] = "par" THEN [j \in 1..Len(o.lines[i]) - 1 |-> ShowOpt(OptRe(ps[At(ps, o.lines[i][j + 1])]))] ELSE o.lines[i]]]
=============================================================================
