------------------------------- MODULE MC_P19 -------------------------------
(* P19: every schedule of the pool algorithm for the client programs below.  *)
EXTENDS PoolAlgo, Json, IOUtils
VARIABLES st, h
Wide == IOEnv.DEPTH = "2"
E(t) == <<"enq", t>>
G(t) == <<"get", t>>
W == <<"wait">>
D == <<"del">>
Jn == <<"join">>
V(t) == <<t, <<"v">>>>
X(t) == <<t, <<"x">>>>
Programs ==
  {Prog(n, TRUE, <<<<E(1), E(2), D>>>>, <<V(1), X(2)>>) : n \in {1, 2}}
  \cup {Prog(1, TRUE, <<<<E(1), W, E(2), G(1), D>>>>, <<V(1), V(2)>>),
        Prog(2, TRUE, <<<<E(1), E(2), G(1), G(2), D>>>>, <<<<1, <<"b", 2>>>>, V(2)>>),
        Prog(1, TRUE, <<<<E(1), G(1), D>>>>, <<<<1, <<"n", 2>>>>, V(2)>>),
        Prog(2, TRUE, <<<<E(1), W, D>>>>, <<<<1, <<"n", 2>>>>, X(2)>>),
        Prog(1, TRUE, <<<<E(1), W, Jn, D>>, <<E(2), G(2)>>>>, <<V(1), X(2)>>),
        Prog(2, FALSE, <<<<E(1), E(2), G(2), G(1), D>>>>, <<V(1), X(2)>>),
        Prog(2, TRUE, <<<<D>>>>, <<>>)}
  \cup IF ~Wide THEN {} ELSE
       {Prog(2, TRUE, <<<<E(1), W, Jn, D>>, <<E(2), G(2)>>>>, <<V(1), X(2)>>),
        Prog(3, TRUE, <<<<E(1), E(2), D>>>>, <<V(1), X(2)>>),
        Prog(2, TRUE, <<<<E(1), E(2), E(3), W, G(3), D>>>>, <<V(1), <<2, <<"b", 3>>>>, V(3)>>),
        Prog(1, TRUE, <<<<E(1), Jn, D>>, <<E(2), G(2)>>, <<E(3)>>>>, <<V(1), X(2), V(3)>>)}
Next0 == /\ st.p = None
         /\ \E p \in Programs : st' = Load(p) /\ h' = <<<<p, "ok">>>>
Next1 == /\ st.p # None
         /\ \E i \in DOMAIN st.th : /\ Enabled(st, i)
                                    /\ \E s \in Move(st, i) : st' = s
                                    /\ h' = Append(h, <<i - 1, "ok">>)
Init == st = Algo0 /\ h = <<>>
Next == Next0 \/ Next1
View == st
Emit == PrintT("@B " \o ToJson(h'))
\* the algorithm refines the abstract pool, never runs a task twice, and can always go on until everybody is done
Inv == st.ok /\ ~Stuck(st) /\ (Over(st) => AllDone(st.a)) /\ Inv0(st.a) /\ Cardinality({i \in 1..Len(st.th) : st.th[i].pc \in {"check", "enter", "ebody", "sset"}}) <= 1
=============================================================================
