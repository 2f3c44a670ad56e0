------------------------------- MODULE MC_P02 -------------------------------
(* P02: the value/error/limit/flag life cycle of parameters, the minimiser   *)
(* index mapping, and what printing reveals.                                 *)
EXTENDS Params, IOUtils
VARIABLES st, h
Names == <<"a", "b", "c_Re">>
MaxDepth == atoi(IOEnv.DEPTH)
P(n, fl, x, sp, lo, hi) == [n |-> n, flag |-> fl, m |-> x, s |-> sp, lo |-> lo, hi |-> hi]
Start == [objs |-> <<>>, list |-> <<>>, map |-> <<>>]
Plain(s) == {i \in DOMAIN s.objs : s.objs[i].t = 0}
Flags == {"Free", "Hide", "Fix", "CompileTimeConstant", "Blind"}
OpsOf(s) ==
  IF s.objs = <<>>
  THEN {[f |-> "add"] @@ P("a", fl, x, 2, -3, 4) : fl \in Flags, x \in {6}} \cup {[f |-> "addptr"] @@ P("a", "Free", 7, 3, 0, 0)}
  ELSE IF Len(s.objs) = 1
  THEN {[f |-> "addptr"] @@ P("b", fl, 8, 1, 0, 9) : fl \in {"Free", "Blind"}} \cup {[f |-> "alias", n |-> "b", t |-> 1, k |-> 3, c |-> 1]}
  ELSE {[f |-> "setval", i |-> i, x |-> x] : i \in Plain(s), x \in {-1, 2, 4}}
  \cup {[f |-> "setinit", i |-> 1, x |-> 9, s |-> sp] : sp \in {-1, 0, 5}}
  \cup {[f |-> "setstep", i |-> 1, x |-> 4], [f |-> "limits", i |-> 1, lo |-> -5, hi |-> 5]}
  \cup {[f |-> "scale", i |-> 1, x |-> x] : x \in {0, 2}}
  \cup {[f |-> "result", i |-> i, x |-> 11, e |-> 1, en |-> -2, ep |-> 3] : i \in Plain(s)}
  \cup {[f |-> g, i |-> i] : g \in {"fix", "free", "reset1"}, i \in Plain(s)}
  \cup {[f |-> "reset"], [f |-> "print"], [f |-> "setfrom", names |-> <<"b">>, xs |-> <<7>>], [f |-> "state", xs |-> <<21, 22>>]}
  \cup {[f |-> "mapping", pos |-> p] : p \in {<<0>>, <<1>>, <<1, 0>>, <<0, 1>>}}
  \cup (IF s.map = <<>> THEN {} ELSE {[f |-> "minuit", xs |-> [k \in DOMAIN s.map |-> 30 + k]]})
StepOf(s, o) == LET r == Do(s, o) IN [s |-> r.s, o |-> Observe(r.s, r.r, Names)]
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- StepOf, Depth <- MaxDepth
Inv == StoreOK(st)
=============================================================================
