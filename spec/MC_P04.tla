------------------------------- MODULE MC_P04 -------------------------------
(* P04: all files of up to three lines of the pool, loaded as options or     *)
(* read as a file, and later value changes.                                  *)
EXTENDS ParamFile, IOUtils
VARIABLES st, h
Lines == {<<"a", "Free", "2", "0.5">>, <<"a", "Fix", "-3", "1", "-5", "5">>, <<"b", "2", "1.25", "0">>, <<"b", "Blind", "4", "0.1", "0", "8">>,
   <<"b", "Nope", "4", "1">>, <<"b", "Free", "x", "1">>, <<"b", "Free", "1">>, <<"b", "Free", "1", "2", "3">>, <<"b", "5", "1", "2">>,
   <<"z", "Free", "1", "0.1", "Fix", "2", "0.2">>, <<"z", "0", "3", "0.1", "-4", "4", "2", "5", "0.2", "-6", "6">>, <<"z", "Free", "1", "0.1", "Bad", "2", "0.2">>,
   <<"z", "Free", "1", "0.1", "Fix", "y", "0.2">>, <<"z_Re", "Hide", "7", "1">>,
   <<"c", "=", "2", "*", "a">>, <<"c", "=", "a", "-", "b">>, <<"c", "=", "z">>, <<"a", "=", "b", "+", "1">>, <<"d", "=", "c", "*", "c">>, <<"c", "==", "2">>, <<"c", "=">>, <<"c">>,
   <<"K*(892)+_mass", "Free", "0.5", "0.1">>, <<"K*(892)bar-_mass", "Fix", "0.75", "0">>, <<"K*(892)bar0_width", "=", "a", "/", "4">>, <<"rho(770)0_mass", "Free", "1", "1">>, <<"D0_radius", "2", "3", "0", "1", "9">>,
   <<"K*(892)+_spin", "Free", "1", "1">>, <<"nobody_mass", "Free", "1", "1">>, <<"x=3", "4">>, <<"y=">>, <<"=y", "Free", "1", "1">>}
Few == {<<"a", "Free", "2", "0.5">>, <<"b", "Blind", "4", "0.1", "0", "8">>, <<"c", "=", "a", "-", "b">>, <<"d", "=", "c", "*", "c">>, <<"K*(892)+_mass", "Free", "0.5", "0.1">>, <<"K*(892)bar-_mass", "=", "a">>, <<"z", "Free", "1", "0.1", "Fix", "2", "0.2">>, <<"c", "=", "real", "z">>}
Two == {<<l>> : l \in Lines} \cup {<<l, m>> : l \in Lines, m \in Lines}
Three == {<<l, m, n>> : l \in Few, m \in Few, n \in Few}
Three2 == IF IOEnv.DEPTH = "2" THEN {<<l, m, n>> : l \in Lines, m \in Few, n \in Lines} ELSE {}
Lds == Two \cup Three \cup Three2
OpsOf(s) == {o \in IF s = <<>> THEN {[f |-> g, lines |-> ls] : g \in {"load", "file"}, ls \in Lds} ELSE {[f |-> "set", n |-> s[k].name, x |-> <<6, 1>>] : k \in {k \in DOMAIN s : s[k].e = <<>>}} : DefinedP(DoP(s, o))}
StepOf(s, o) == LET n == DoP(s, o) IN [s |-> n, o |-> ObserveP(n)]
INSTANCE Explore WITH Init0 <- <<>>, Ops <- OpsOf, Step <- StepOf, Depth <- 2
Inv == UniqueP(st)
\* the order of the parameter lines is irrelevant for what is loaded (aliases may precede what they use)
OrderFree == \A l \in Few, m \in Few : l[1] # m[1] /\ ~IsAlias(m) => {LoadOptions(<<l, m>>)[k].name : k \in DOMAIN LoadOptions(<<l, m>>)} = {LoadOptions(<<m, l>>)[k].name : k \in DOMAIN LoadOptions(<<m, l>>)}
ASSUME OrderFree
=============================================================================
