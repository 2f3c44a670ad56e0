------------------------------- MODULE MC_P18 -------------------------------
(* P18: complete graph of short histories of one model, and of models that   *)
(* share parameters and a data set.                                          *)
EXTENDS Pdf, IOUtils
VARIABLES st, h
Part == IOEnv.PART
DEP == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
Data == {<<1, 2, 3>>, <<4, 5, 6, 7, 8>>}
Samples == {<<9, 10>>, <<11, 12, 13, 14, 15>>}
Set(k, sc) == {[f |-> "setev", k |-> k, es |-> d, sc |-> x] : d \in Data, x \in sc} \cup {[f |-> "setmc", k |-> k, es |-> d, sc |-> FALSE] : d \in Samples}
Look(s, k) == IF s[k].dead \/ s[k].st # "no" THEN {} ELSE
   {[f |-> "nocache", k |-> k, es |-> <<3, 9>>]} \cup (IF s[k].ev # <<>> THEN {[f |-> "read", k |-> k]} ELSE {}) \cup {[f |-> "eval", k |-> k, mc |-> FALSE, es |-> <<2, 4, 11, 6, 1>>]}
   \cup (IF s[k].mc # <<>> THEN {[f |-> "norm", k |-> k], [f |-> "eval", k |-> k, mc |-> TRUE, es |-> s[k].mc]} ELSE {})
Penalty(s, k) == IF k # "C" \/ s[k].dead \/ s[k].st # "no" \/ s[k].mc = <<>> THEN {} ELSE {[f |-> "lasso", w |-> 3]} \cup
   {[f |-> "ratio", nu |-> q[1], de |-> q[2], w |-> 2, r |-> q[3]] : q \in {<<<<1, 3>>, <<1, 2, 3, 4>>, 0>>, <<<<2>>, <<3, 4>>, 1>>, <<<<4, 2, 1>>, <<3>>, 2>>}}
Frac(s, k) == IF k = "P" \/ s[k].dead \/ s[k].mc = <<>> THEN {} ELSE {[f |-> "frac", k |-> k, re |-> TRUE]} \cup (IF s[k].st = "L" THEN {} ELSE {[f |-> "frac", k |-> k, re |-> FALSE]})
Par(n, vs) == {[f |-> "par", n |-> n, v |-> v] : v \in vs}
Cpl(k, i, zs) == {[f |-> "cpl", k |-> k, i |-> i, re |-> z[1], im |-> z[2]] : z \in zs}
One(s, k) == IF s[k].dead THEN {} ELSE
   Set(k, {TRUE, FALSE}) \cup {[f |-> "prepare", k |-> k], [f |-> "reset", k |-> k, all |-> FALSE], [f |-> "drop", k |-> k]} \cup (IF k = "P" THEN {} ELSE {[f |-> "reset", k |-> k, all |-> TRUE]})
   \cup Look(s, k) \cup Penalty(s, k) \cup Frac(s, k) \cup {[f |-> "like", ks |-> <<k>>, sc |-> x, es |-> <<4, 5, 6, 7, 8>>] : x \in (IF k = "C" THEN {TRUE, FALSE} ELSE {FALSE})}
\* parameters: one that some amplitudes depend on, one coupling that only this model or that several use
OpsC(s) == One(s, "C") \cup Par("va", {1, -1}) \cup Par("vb", {2}) \cup Par("yC", {2}) \cup Cpl("C", 1, {<<0, 2>>}) \cup Cpl("C", 3, {<<-1, 1>>})
OpsI(s) == One(s, "I") \cup Par("va", {1, -1}) \cup Par("vb", {2}) \cup Par("yI", {2}) \cup Cpl("I", 1, {<<0, 2>>}) \cup Cpl("I", 3, {<<-1, 1>>})
OpsP(s) == One(s, "P") \cup Par("va", {1, -1}) \cup Par("vb", {2}) \cup Par("yP", {2}) \cup Cpl("C", 2, {<<0, 2>>}) \cup Cpl("Q", 1, {<<-1, 1>>}) \cup Par("Px", {1}) \cup Par("Pz", {-1}) \cup Par("Py", {1})
\* sums: models share parameters and data
OpsS(s) == UNION {{[f |-> "prepare", k |-> k], [f |-> "setmc", k |-> k, es |-> <<11, 12, 13, 14, 15>>, sc |-> FALSE]} : k \in Ks}
   \cup {[f |-> "like", ks |-> ks, sc |-> FALSE, es |-> d] : ks \in {<<"C">>, <<"C", "I">>, <<"C", "P">>, <<"C", "I", "P">>}, d \in Data}
   \cup Par("va", {-1}) \cup Par("yI", {2}) \cup Cpl("C", 1, {<<0, 2>>})
   \cup UNION {IF s[k].st = "no" /\ s[k].ev # <<>> THEN {[f |-> "read", k |-> k]} \cup (IF s[k].mc # <<>> THEN {[f |-> "norm", k |-> k]} ELSE {}) ELSE {} : k \in Ks}
\* a model that is set up first, then changed
Deep(s, k, more) == IF s[k].seen # <<>> THEN more ELSE IF s[k].mc = <<>> THEN {[f |-> "setmc", k |-> k, es |-> <<11, 12, 13, 14, 15>>, sc |-> FALSE]}
   ELSE IF s[k].ev = <<>> THEN {[f |-> "setev", k |-> k, es |-> <<4, 5, 6, 7, 8>>, sc |-> FALSE]} ELSE {[f |-> "prepare", k |-> k]}
OpsOf(s) == CASE Part = "Cd" -> Deep(s, "C", OpsC(s)) [] Part = "Id" -> Deep(s, "I", OpsI(s)) [] Part = "Pd" -> Deep(s, "P", OpsP(s)) [] Part = "C" -> OpsC(s) [] Part = "I" -> OpsI(s) [] Part = "P" -> OpsP(s) [] Part = "sum" -> OpsS(s)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- DEP
\* densities integrate to the yield: the answers of a prepared model are consistent
Inv == \A k \in Ks : (st[k].st = "no" /\ st[k].mc # <<>>) =>
         /\ (k # "P" => N(st, k) >= 0)
         /\ (k = "C" => N(st, k) = ISum([q \in 1..10 |-> (IF Pairs[q][1] = Pairs[q][2] THEN 1 ELSE 2) * Cross(st, k, Pairs[q][1], Pairs[q][2])]))
         /\ (k = "I" => N(st, k) = ISum([i \in 1..3 |-> Cross(st, k, i, i)]))
=============================================================================
