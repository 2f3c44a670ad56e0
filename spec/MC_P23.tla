------------------------------- MODULE MC_P23 -------------------------------
(* P23: the graph of short histories of one generator and one list; all      *)
(* small discrete distributions; decays and decay chains.                    *)
EXTENDS Gen, IOUtils
VARIABLES st, h
Part == IOEnv.PART
DEP == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
Ns == IF IOEnv.TIER = "thorough" THEN {0, 1, 2, 3, 4, 7, 12} ELSE {0, 1, 2, 5, 9}
Bs == IF IOEnv.TIER = "thorough" THEN {1, 2, 3, 4, 5, 8, 13} ELSE {1, 3, 4, 6}
OpsG(s) == {[f |-> "block", n |-> n] : n \in Bs \ {s.b}} \cup {[f |-> "norm", v |-> ~s.norm]}
   \cup {[f |-> g, n |-> n] : g \in {"fill", "make"}, n \in Ns} \cup {[f |-> "raw", n |-> n] : n \in {0, 1, 5}}
\* discrete distributions
Tup(n, m) == {t \in [1..n -> 0..m] : SumW(t) > 0}
OpsD(s) == {[f |-> "dice", ws |-> t] : t \in Tup(1, 5) \cup Tup(2, 9) \cup Tup(3, 6) \cup Tup(4, IF IOEnv.TIER = "thorough" THEN 6 ELSE 4) \cup Tup(5, IF IOEnv.TIER = "thorough" THEN 4 ELSE 2)}
\* decays: final states and chains <<final state, chains, quasi-stable intermediates, ways>>
T3 == <<"D0", "K+", "pi-", "pi0">>
T4 == <<"D0", "K+", "pi-", "pi-", "pi+">>
TM == <<"B0", "psi(2S)0", "mu+", "mu-">>
T4M == <<"B0", "pi+", "psi(2S)0", "pi-", "mu+">>
Flat == { <<<<"D0", "K+", "pi-">>, <<>>>>, <<T3, <<>>>>, <<T4, <<>>>>, <<<<"B0", "K+", "pi-", "pi-", "pi+", "pi0">>, <<>>>>,
          <<<<"B0", "gamma0", "gamma0", "gamma0">>, <<>>>>, <<TM, <<>>>>, <<<<"B0", "D-", "D0", "K+">>, <<>>>>, <<<<"J/psi0", "p+", "pbar-">>, <<>>>> }
Free == { <<T3, <<"D0{K*(892)+{K+,pi0},pi-}">>>>, <<T3, <<"D0{rho(770)-{pi-,pi0},K+}">>>>, <<T3, <<"D0{K+,pi-,pi0}">>>>,
          <<T3, <<"D0{K*(892)+{K+,pi0},pi-}", "D0{rho(770)-{pi-,pi0},K+}">>>>, <<T3, <<"D0{K+,pi-,pi0}", "D0{rho(770)-{pi-,pi0},K+}", "D0{K*(892)0{K+,pi-},pi0}">>>>,
          <<T4, <<"D0{K*(892)0{K+,pi-},rho(770)0{pi+,pi-}}">>>>, <<T4, <<"D0{K+,pi-,pi-,pi+}">>>>, <<T4, <<"D0{K(1)(1270)+{K+,pi-,pi+},pi-}">>>>,
          <<T4, <<"D0{K(1)(1270)+{K*(892)0{K+,pi-},pi+},pi-}", "D0{a(1)(1260)-{rho(770)0{pi+,pi-},pi-},K+}">>>>,
          <<TM, <<"B0{rho(770)0{mu+,mu-},psi(2S)0}">>>>, <<TM, <<"B0{NonResS0{psi(2S)0,mu+},mu-}">>>>,
          <<TM, <<"B0{rho(770)0{mu+,mu-},psi(2S)0}", "B0{NonResS0{psi(2S)0,mu+},mu-}">>>>, <<TM, <<"B0{NonResS0{mu+,mu-},psi(2S)0}", "B0{NonResS0{psi(2S)0,mu-},mu+}">>>>,
          <<T4M, <<"B0{NonResS0{pi+,pi-},NonResS0{psi(2S)0,mu+}}", "B0{NonResS0{NonResS0{psi(2S)0,pi-},mu+},pi+}", "B0{NonResS0{NonResS0{mu+,pi-},pi+},psi(2S)0}">>>>,
          <<<<"B0", "D-", "D0", "K+">>, <<"B0{NonResS0{D-,D0},K+}", "B0{NonResS0{D-,K+},D0}">>>> }
Fixed == { <<<<"B0", "pi+", "K+", "pi-", "pi-">>, <<"B0{D-{K+,pi-,pi-},pi+}">>, <<<<"D-", <<1, 2, 3>>>>>>>>,
           <<<<"Lambda(c)+", "pi+", "p+", "pi-">>, <<"Lambda(c)+{Lambda0{p+,pi-},pi+}">>, <<<<"Lambda0", <<1, 2>>>>>>>>,
           <<<<"Lambda(b)0", "K-", "p+", "pi-", "pi+", "gamma0">>, <<"Lambda(b)0{Lambda0{p+,pi-},D0{K-,pi+},gamma0}">>, <<<<"D0", <<0, 3>>>>, <<"Lambda0", <<1, 2>>>>>>>> }
Op(f, t, ch, qs, td, how, n) == [f |-> f, t |-> t, ch |-> ch, qs |-> qs, td |-> td, how |-> how, n |-> n, seed |-> 1]
BIG == IF IOEnv.TIER = "thorough" THEN 4000000 ELSE 800000
OpsP(s) == UNION {{Op("kin", x[1], <<>>, <<>>, td, how, 300) : td \in {FALSE}, how \in {"one", "gen", "py"}} \cup {Op("kin", x[1], <<>>, <<>>, TRUE, how, 300) : how \in {"one", "gen"}}
                   \cup {Op("flat", x[1], <<>>, <<>>, FALSE, "one", BIG)} \cup (IF x[1][1] = "J/psi0" THEN {} ELSE {Op("flat", x[1], <<>>, <<>>, TRUE, "one", BIG)}) : x \in Flat}
   \cup UNION {{Op("kin", x[1], x[2], <<>>, FALSE, how, 300) : how \in {"one", "default"}} \cup {Op("flat", x[1], x[2], <<>>, FALSE, "one", BIG)} : x \in Free}
   \cup UNION {{Op(f, x[1], x[2], x[3], FALSE, how, IF f = "kin" THEN 300 ELSE BIG) : f \in {"kin", "flat"}, how \in {"one", "rec"}} : x \in Fixed}
OpsOf(s) == CASE Part = "gen" -> OpsG(s) [] Part = "dice" -> OpsD(s) [] Part = "phsp" -> OpsP(s)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- DEP
Ids == {e[1] : e \in {st.l[i] : i \in 1..Len(st.l)}}
Inv == /\ Cardinality(Ids) = Len(st.l)                              \* no candidate twice
       /\ \A i \in 1..Len(st.l) : st.l[i][3] # "0"                  \* nothing of zero density
=============================================================================
