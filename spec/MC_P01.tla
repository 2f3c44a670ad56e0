------------------------------- MODULE MC_P01 -------------------------------
(* P01: membership, names and lookups of the parameter set over all          *)
(* histories of registering, renaming, removing, resetting and transferring. *)
EXTENDS Params, IOUtils
VARIABLES st, h
Names == <<"a", "b", "c_Re">>
NameSet == {"a", "b", "c_Re"}
MaxObj == atoi(IOEnv.MAXOBJ)
MaxDepth == atoi(IOEnv.DEPTH)
Objs(s) == DOMAIN s.objs
Plain(s) == {i \in Objs(s) : s.objs[i].t = 0}
Spec2(n, x) == [n |-> n, flag |-> "Free", m |-> x, s |-> 1, lo |-> 0, hi |-> 0]
OpsOf(s) ==
     {[f |-> g] @@ Spec2(n, 10 * (Len(s.objs) + 1)) : g \in IF Len(s.objs) < MaxObj THEN {"add", "addget", "addptr"} ELSE {}, n \in NameSet}
  \cup {[f |-> g] @@ Spec2(n, 77) : g \in {"add", "addget"}, n \in {x \in NameSet : Lookup(s, x) # None}}
  \cup {[f |-> "alias", n |-> n, t |-> i, k |-> 2, c |-> 1] : n \in IF Len(s.objs) < MaxObj THEN NameSet ELSE {}, i \in Objs(s)}
  \cup {[f |-> "readd", i |-> i] : i \in Objs(s)}
  \cup {[f |-> "unreg", i |-> i] : i \in Objs(s)}
  \cup {[f |-> "rename", n |-> n, to |-> m] : n \in NameSet, m \in NameSet}
  \cup {[f |-> "setval", i |-> i, x |-> 5] : i \in Plain(s)}
  \cup {[f |-> "reset"]}
  \cup {[f |-> "setfrom", names |-> <<"a", "c_Re">>, xs |-> <<7, 8>>]}
  \cup {[f |-> "index", pos |-> p, x |-> 6] : p \in {q \in 0..(Len(s.list) - 1) : s.objs[s.list[q + 1]].t = 0}}
StepOf(s, o) == LET r == Do(s, o) IN [s |-> r.s, o |-> Observe(r.s, r.r, Names)]
INSTANCE Explore WITH Init0 <- Empty, Ops <- OpsOf, Step <- StepOf, Depth <- MaxDepth
Inv == StoreOK(st)
\* members keep their relative order; an object leaves the list only by being unregistered
Pos(s, i) == CHOOSE k \in DOMAIN s.list : s.list[k] = i
OrderStable == [][\A i, j \in Range(st.list) \cap Range(st'.list) : Pos(st, i) < Pos(st, j) => Pos(st', i) < Pos(st', j)]_<<st, h>>
LeaveOnlyByUnregister == [][LET o == h'[Len(h')][1] IN Range(st.list) \subseteq Range(st'.list) \/ o.f = "unreg"]_<<st, h>>
=============================================================================
