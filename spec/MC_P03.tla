------------------------------- MODULE MC_P03 -------------------------------
(* P03: all short combinations of files, imports, command lines and look-ups *)
EXTENDS Options, IOUtils
VARIABLES st, h
MaxDepth == atoi(IOEnv.DEPTH)
Pool == <<"a", "b0", "help", "D0{K-,pi+}", "{x}">>
Q == "\""
Lines == {"a 1", "a 2 3 # c", "b0 " \o Q \o "x y" \o Q \o " z", "# a 9", "* a 9", "  a\t5#c", "b0 {", "4 5", "}", "", "  # only", "{", "Import sub.opt", "D0{K-,pi+} 2 1 0 2 0 0",
          "a " \o Q \o "u#v {" \o Q, "} a 7", "Import", "help"}
Sub1 == <<"sub.opt", <<"b0 -6 true 2.5", "a Blind">>>>
Files2 == {<<<<"m.opt", <<l1, l2>>>>, Sub1>> : l1 \in Lines, l2 \in Lines}
Files3 == {<<<<"m.opt", <<l1, l2, l3>>>>, Sub1>> : l1 \in {"b0 {", "a 2 3 # c", "a {"}, l2 \in Lines, l3 \in {"}", "a 1", "} a 7"}}
Args == {<<"--a=3">>, <<"--a", "4">>, <<"--a">>, <<"--a", "--b0=1=2">>, <<"m.opt">>, <<"m.opt", "--a=9">>, <<"--a=9", "m.opt">>, <<"--a=">>, <<"--b0", "m.opt">>, <<"--help">>, <<"nofile.opt">>, <<"--b0=u v", "--a", "-3">>}
MainF == <<<<"m.opt", <<"a 11", "Import sub.opt", "b0 12">>>>, Sub1>>
Gets == {[f |-> "get", ty |-> t, key |-> k, def |-> d] : t \in {"string"}, k \in {"a", "b0"}, d \in {<<"dd">>, <<"d1", "d2">>}}
   \cup {[f |-> "get", ty |-> t, key |-> k, def |-> <<5>>] : t \in {"double", "int", "uint", "size"}, k \in {"a", "b0"}}
   \cup {[f |-> "get", ty |-> "bool", key |-> k, def |-> <<TRUE>>] : k \in {"a", "b0"}}
   \cup {[f |-> "get", ty |-> "flag", key |-> k, def |-> <<"Fix">>] : k \in {"a", "b0"}}
   \cup {[f |-> "numbered", ty |-> t, key |-> "b"] : t \in {"string", "int"}}
   \cup {[f |-> "np", key |-> "a", def |-> <<3, 4>>]}
OpsOf(s) ==
   (IF s.keys = <<>> THEN {[f |-> "import", files |-> fs, name |-> "m.opt"] : fs \in Files2 \cup Files3}
    ELSE {[f |-> "import", files |-> fs, name |-> "m.opt"] : fs \in {<<<<"m.opt", <<l>>>>, Sub1>> : l \in Lines}})
   \cup {[f |-> "cli", files |-> MainF, argv |-> av] : av \in Args}
   \cup {[f |-> "arg", files |-> MainF, text |-> l] : l \in Lines \ {"b0 {", "{", "}"}}
   \cup {g \in Gets : ~(g.f = "get" /\ g.ty \in {"uint", "size"} /\ KeyPos(s, g.key) # 0 /\ \E t \in DOMAIN s.val[KeyPos(s, g.key)] : StartsWith(s.val[KeyPos(s, g.key)][t], "-"))}   \* no wrap-around
   \cup (IF s.np = <<>> THEN {} ELSE {[f |-> "npset", i |-> i, x |-> 8] : i \in {-1 + 1, 1, 3}} \cup {[f |-> "npall", xs |-> <<1, 2>>]} \cup {[f |-> "npget", i |-> i] : i \in {-1, 0, 1, 2}})
StepOf(s, o) == LET r == Do(s, o) IN [s |-> r.s, o |-> Observe(r.s, r.r, Pool)]
INSTANCE Explore WITH Init0 <- NoOpts, Ops <- OpsOf, Step <- StepOf, Depth <- MaxDepth
Inv == TableOK(st)
\* definitions never disappear and never move
Monotone == [][Len(st.keys) <= Len(st'.keys) /\ \A k \in DOMAIN st.keys : st'.keys[k] = st.keys[k]]_<<st, h>>
=============================================================================
