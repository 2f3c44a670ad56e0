------------------------------- MODULE MC_P08 -------------------------------
(* P08: the complete graph of histories, one function (and a copy) at a time. *)
EXTENDS Transfer, IOUtils
VARIABLES st, h
F == IF IOEnv.FUN = "0" THEN 1 ELSE CHOOSE k \in 1..4 : ToString(k) = IOEnv.FUN
D == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
Pars == CASE F = 1 -> {"p1", "p2"} [] F = 2 -> {"p1", "p2"} [] F = 3 -> {"p1", "p2", "lam"} [] F = 4 -> {"k", "p2"}
Ks(s) == {F} \cup (5..Len(s.fns))
Built == {[f |-> x, link |-> l, n |-> q[1], m |-> q[2], vs |-> <<2, -1, 3>>] : x \in {"frozen", "standalone"}, l \in {0, 1}, q \in {<<3, 3>>, <<1, 13>>, <<-5, 20>>, <<1234567, 0>>, <<1234567, 10>>, <<1, 24>>}}
OpsOf(s) == IF IOEnv.FUN = "0" THEN Built ELSE {[f |-> "set", p |-> p, v |-> v] : p \in Pars, v \in {0, 8, -8, 3}}
   \cup {[f |-> x, k |-> k] : x \in {"prepare", "ack", "changed"}, k \in Ks(s)} \cup {[f |-> "eval", k |-> k, vs |-> <<2, -1, 3, 0, 1>>] : k \in Ks(s)}
   \cup (IF Len(s.fns) < 5 THEN {[f |-> "copy", k |-> F]} ELSE {[f |-> "assign", k |-> F, j |-> 5], [f |-> "assign", k |-> 5, j |-> F]})
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- D
\* a report of no change means that the values in use are those of the last acknowledgement
TypeOK == \A k \in DOMAIN st.fns : Len(st.fns[k].ext) = Len(Reads(st.fns[k].f, st.p))
Inv == TypeOK
=============================================================================
