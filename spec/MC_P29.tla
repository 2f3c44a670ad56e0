------------------------------- MODULE MC_P29 -------------------------------
EXTENDS Fit, IOUtils
Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Sets == << <<Par("a", "Free", 1, 2, 0, 0), Par("b", "Fix", 2, 0, 0, 0), Par("c", "Free", -3, 1, -10, 10)>>,
  <<Par("m", "Hide", 4, 1, 0, 0), Par("x_Re", "Free", 1, 1, 0, 0), Par("x_Im", "Free", 2, 3, 0, 0), Par("y", "Free", -1, 1, 0, 9)>>,
  <<Par("g", "Blind", 2, 1, 0, 0), Par("h", "Free", 3, 2, -9, 0), Par("g_blind", "Fix", 7, 0, 0, 0)>>,
  <<Par("k", "CompileTimeConstant", 5, 0, 0, 0), Par("z_Im", "Free", 3, 1, -6, 6), Par("a", "Free", 2, 2, 0, 0), Par("z_Re", "Fix", 1, 0, 0, 0)>>,
  <<Par("w_Re", "Free", 3, 1, 0, 8), Par("w_Im", "Free", 0, 1, 0, 0), Par("q_Rex", "Free", 1, 4, 1, 5)>>,
  <<Par("only", "Fix", 3, 1, 0, 0), Par("v", "Free", 1, 1, 0, 0)>> >>
Fun(n, v) == [l |-> [k \in 1..n |-> ((k * (v + 2)) % 5) - 2], q |-> [k \in 1..n |-> 1 + ((k + v) % 3)], m |-> [k \in 1..n |-> ((k * k + v) % 3) - 1]]
Cov(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 9 + 7 * i + v ELSE (i + j) * (1 - 2 * (v % 2)) + (IF i + j = 4 THEN 1 ELSE 0)]]
Fits(s) == LET n == Len(s.mini[1].map) IN
   {[f |-> "fit", pts |-> [j \in 1..2 |-> [i \in 1..n |-> ((i * (j + v) * 3) % 7) - 3]], x |-> [i \in 1..n |-> ((i * 5 + v) % 7) - 1], e |-> [i \in 1..n |-> i + v], c |-> Cov(n, v), st |-> v * 3, minos |-> mn] :
      v \in 0..1, mn \in {<<>>, [i \in 1..n |-> <<-1 - i, 2 * i + 1>>]}}
First(q) == q[1]
HasFit(s) == s.mini # <<>> /\ s.mini[1].done
Blind(s) == \E k \in DOMAIN s.par : s.par[k].f = "Blind"
Fractions(v) == <<<<"D0{K,pi}", 3 + v, 1>>, <<"Sum", -7, 2 + v>>>>
Notes == {[f |-> "note", chi2 |-> 31, nb |-> 40, ob |-> <<<<"yield", 12>>, <<"asym", -3>>>>, fr |-> Fractions(0)], [f |-> "note", chi2 |-> 7, nb |-> 9, ob |-> <<<<"yield", 5>>, <<"purity", 2>>>>, fr |-> <<>>]}
Noted(s) == s.res[1].nb
Templates(s) == LET ps == ParsOf(s, s.res[1]) n == Len(ps)
                    tw == {<<j, k>> \in (1..n) \X (1..n) : Len(ps[j].n) > 3 /\ Tail3(ps[j].n) = "_Re" /\ ps[k].n = Stem(ps[j].n) \o "_Im"}
                    single == {k \in 1..n : \A t \in tw : t[1] # k /\ t[2] # k}
                    names == [i \in 1..Cardinality(single) |-> LET q == SetToSeq(single) IN ps[q[i]].n]
                    head == <<<<"EventType", "D0", "K+", "pi-">>, <<"#", "a", "Free", "1", "2">>>>
                    body == [i \in DOMAIN names |-> <<"par", names[i]>>] \o [i \in 1..Cardinality(tw) |-> LET t == SetToSeq(tw)[i] IN <<"par", ps[t[1]].n, ps[t[2]].n>>]
                IN {[f |-> "template", lines |-> head \o body \o <<<<names[1], "=", "3", "+", "1">>, <<"nTest", "4">>>>], [f |-> "template", lines |-> SubSeq(body, 1, 1) \o head]}
OpsOf(s) ==
  IF s.par = <<>> THEN {[f |-> "set", ps |-> Sets[i]] : i \in DOMAIN Sets}
  ELSE (IF s.mini = <<>> THEN {[f |-> "minimiser", fn |-> Fun(Len(s.par), v), norm |-> b] : v \in 0..(IF Deep THEN 2 ELSE 1), b \in BOOLEAN} \cup (IF s.res = <<>> THEN {[f |-> "ofcov", c |-> Cov(Len(s.par), 0)]} ELSE {})
        ELSE (IF HasFit(s) THEN {[f |-> "minos", k |-> s.mini[1].map[i], lo |-> -4 - i, hi |-> 2 + i] : i \in DOMAIN s.mini[1].map} \cup {[f |-> "external"]}
                               \cup (IF s.res = <<>> THEN {[f |-> "result"]} ELSE {})
              ELSE (IF Len(s.cs) < 2 THEN {[f |-> "constrain", k |-> k, m |-> 2 - k, d |-> 1 + Len(s.cs)] : k \in {1, Len(s.par)}} ELSE {}))
             \cup (IF s.res = <<>> THEN Fits(s) ELSE {})
             \cup {[f |-> "scan", k |-> s.mini[1].map[1], a |-> -1, b |-> 2]}
             \cup {[f |-> "prepare", norm |-> s.mini[1].norm]})
  \cup (IF s.res # <<>> THEN Notes \cup {[f |-> "copy"], [f |-> "reduced", ext |-> FALSE], [f |-> "reduced", ext |-> TRUE], [f |-> "options"]} \cup Templates(s) \cup (IF Blind(s) THEN {} ELSE {[f |-> "write"]}) ELSE {})
  \cup (IF s.file # <<>> THEN {[f |-> "read"]} ELSE {})
  \cup (IF s.mini # <<>> /\ s.res = <<>> /\ s.par[1].f # "Blind" THEN {[f |-> "flag", k |-> 1, to |-> IF s.par[1].f = "Fix" THEN "Free" ELSE "Fix"], [f |-> "value", k |-> Len(s.par), x |-> 4]} ELSE {})
\* laws: fixed parameters never move, the covariance is symmetric and zero for them, values outside the map are kept
Laws(s, o, r) ==
   /\ (o.f \in {"fit", "minos"} => \A k \in DOMAIN s.par : (\A i \in DOMAIN s.mini[1].map : s.mini[1].map[i] # k) => r.s.par[k] = s.par[k])
   /\ (o.f = "result" => \A i, j \in DOMAIN s.par : r.s.res[1].cov[i][j] = r.s.res[1].cov[j][i] /\ ((\A m \in DOMAIN s.mini[1].map : s.mini[1].map[m] # i) => r.s.res[1].cov[i][j] = 0))
   /\ (o.f = "options" => Len(r.o) = Len(ParsOf(s, s.res[1])) /\ {r.o[i] : i \in DOMAIN r.o} = ByName(ParsOf(s, s.res[1])))
   /\ (o.f = "read" => r.s.res[1].cov = s.file[1].cov)
Checked(s, o) == LET r == FStep(s, o) IN IF Laws(s, o, r) THEN r ELSE Assert(FALSE, <<s, o, r>>)
VARIABLES st, h
INSTANCE Explore WITH Init0 <- S0, Ops <- OpsOf, Step <- Checked, Depth <- IF Deep THEN 8 ELSE 6
=============================================================================
