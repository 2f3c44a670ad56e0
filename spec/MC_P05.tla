------------------------------- MODULE MC_P05 -------------------------------
(* P05: all operator sequences, bracketings, functions and end points of the *)
(* families below, read by the real parser, before and after the parameters  *)
(* change.                                                                   *)
EXTENDS ExprText, IOUtils
VARIABLES st, h
Polar == IOEnv.COORD # "cart"
Ctx == [names |-> <<"a", "b", "z_Re", "z_Im", "par::x">>, polar |-> Polar, deg |-> IOEnv.COORD = "polardeg"]
V1 == IF Polar THEN <<<<2, 1>>, <<3, 1>>, <<2, 1>>, <<IF Ctx.deg THEN 90 ELSE 0, 1>>, <<1, 2>>>> ELSE <<<<2, 1>>, <<3, 1>>, <<1, 1>>, <<-2, 1>>, <<1, 2>>>>
V2 == IF Polar THEN <<<<4, 1>>, <<1, 1>>, <<3, 1>>, <<IF Ctx.deg THEN 180 ELSE 0, 1>>, <<-1, 1>>>> ELSE <<<<4, 1>>, <<1, 1>>, <<3, 2>>, <<1, 1>>, <<-1, 1>>>>
Ops8 == {"^", "/", "*", "-", "+", ">", "<", "&&"}
Seq2 == {<<x, o, y>> : x \in {"2", "a", "z", "0", "-3", "I"}, o \in Ops8, y \in {"3", "b", "0.5", "z", "par::x", "unknown"}}
Seq3 == {<<x, o, y, p, z>> : x \in {"2", "b"}, o \in Ops8, y \in {"a", "3"}, p \in Ops8, z \in {"2", "b", "z"}}
Seq4 == {<<w, o, x, p, y, q, z>> : w \in {"4"}, o \in Ops8, x \in {"a"}, p \in Ops8, y \in {"3"}, q \in Ops8, z \in {"b", "2"}}
Brack == {<<"(", x, o, "a", ")", p, "b">> : x \in {"2", "z"}, o \in Ops8, p \in Ops8} \cup {<<"2", o, "(", "a", p, "3", ")">> : o \in Ops8, p \in Ops8}
   \cup {<<"(", "(", "a", o, "3", ")", p, "2", ")", q, "b">> : o \in Ops8, p \in Ops8, q \in {"-", "/", "*"}}
   \cup {<<"b", q, "(", "2", p, "(", "a", o, "3", ")", ")">> : o \in Ops8, p \in Ops8, q \in {"-", "/", "*"}}
   \cup {<<"(", "a", o, "b", ")", q, "(", "3", p, "2", ")">> : o \in Ops8, p \in Ops8, q \in Ops8}
FunArg == {<<"0">>, <<"1">>, <<"-1">>, <<"4">>, <<"0.25">>, <<"a">>, <<"par::x">>, <<"z">>, <<"PI">>, <<"pi", "/", "6">>, <<"pi", "*", "par::x">>, <<"M_PI", "/", "4">>, <<"i", "*", "PI", "/", "2">>, <<"e">>, <<"b", "+", "1">>, <<"I">>, <<"3", "+", "4", "*", "I">>}
Call(f, a) == <<f, "(">> \o a \o <<")">>
Fn == {Call(f, a) : f \in Funs, a \in FunArg}
   \cup {<<f, a[1]>> : f \in Funs, a \in {x \in FunArg : Len(x) = 1}}
   \cup {<<"2", o>> \o Call(f, a) \o <<p, "3">> : o \in {"^", "/", "-", "+"}, p \in {"*", "-", "^", ">"}, f \in {"sqrt", "cos", "abs", "imag", "real"}, a \in {<<"4">>, <<"PI">>, <<"z">>, <<"0">>}}
   \cup {<<f, "4", o, "a">> : f \in {"sqrt", "abs", "real"}, o \in Ops8} \cup {<<"a", o, f, "4", p, "2">> : f \in {"sqrt", "abs", "real"}, o \in Ops8, p \in Ops8}
   \cup {<<f, "4", o, g, "9">> : f \in {"sqrt", "real"}, g \in {"sqrt", "imag"}, o \in Ops8}
   \cup {<<"sqrt", "(", "abs", "(">> \o a \o <<")", ")">> : a \in {<<"a", "-", "b">>, <<"-4">>, <<"0", "-", "9">>}}
Mult == {Call("atan2", a \o <<",">> \o b) : a \in {<<"1">>, <<"a">>, <<"0">>, <<"a", "-", "b">>, <<"(", "a", "-", "4", ")">>}, b \in {<<"1">>, <<"a">>, <<"0">>, <<"b", "-", "a">>, <<"0", "-", "a">>}}
   \cup {Call("Ternary", a \o <<",">> \o b \o <<",">> \o d) : a \in {<<"a", ">", "b">>, <<"a", "<", "b">>, <<"1">>, <<"0">>, <<"a", "-", "2">>, <<"(", "a", ">", "b", ")", "&&", "1">>}, b \in {<<"a">>, <<"2", "*", "z">>}, d \in {<<"b", "-", "1">>, <<"0">>}}
   \cup {<<"2", "*">> \o Call("Ternary", <<"a", ">", "b", ",", "1", ",", "3">>) \o <<"-", "1">>, Call("Ternary", <<"1", ">", "0", ",">> \o Call("Ternary", <<"0", ",", "7", ",", "8">>) \o <<",", "6">>)}
All == IF Polar THEN Seq2 \cup {<<"z", o, "z">> : o \in Ops8} \cup {Call(f, <<"z">>) : f \in {"abs", "real", "imag"}} ELSE Seq2 \cup Seq3 \cup Seq4 \cup Brack \cup Fn \cup Mult
Few == {<<"a", "-", "b", "-", "1">>, <<"z", "*", "2">>, <<"par::x", "+", "a", "*", "b">>}
ParseOps(S) == {[f |-> "parse", toks |-> t, sp |-> 1 + (Len(t) % 3), via |-> (IF t[1] \in {"2", "a", "4"} THEN 0 ELSE 1)] : t \in S}
OpsOf(s) == {o \in (IF s.held = <<>> THEN ParseOps(All) ELSE IF Len(s.held) = 1 /\ s.vals = V2 THEN ParseOps(Few) ELSE {}) \cup {[f |-> "set", vals |-> v] : v \in {V1, V2} \ {s.vals}} : Defined(Do(s, o, Ctx))}
StepOf(s, o) == LET n == Do(s, o, Ctx) IN [s |-> n, o |-> [k \in DOMAIN n.held |-> Show(Vals(n)[k])]]
INSTANCE Explore WITH Init0 <- Start(V1), Ops <- OpsOf, Step <- StepOf, Depth <- 3
\* what has been read never changes, only its value does
Frozen == [][\A k \in DOMAIN st.held : st'.held[k] = st.held[k]]_<<st, h>>
Inv == Defined(st)
=============================================================================
