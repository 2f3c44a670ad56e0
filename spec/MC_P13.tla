------------------------------- MODULE MC_P13 -------------------------------
(* P13: small particle files of every row shape, then aliases, additions and *)
(* imports; and quark-flavour comparison over all combinations.              *)
EXTENDS PDB, IOUtils
VARIABLES st, h
Wide == IOEnv.DEPTH = "2"
MaxDepth == 3
R(m, g, j, p, cc, a, id, ch, nm, qk) == m \o " ,1.0E+00,1.0E+00,2.50E-03 ,1.0E+00,1.0E+00,1/2," \o g \o "," \o j \o "," \o p \o "," \o cc \o "," \o a \o ", " \o id \o "," \o ch \o ", ,R," \o nm \o " ," \o qk \o " "
Shapes == {<<R("1.25E+02", " ", j, p, " ", a, "31", ch, "X", qk)>> :
             j \in {"0   ", "1/2 ", "1   ", "3/2", "?"}, p \in {"+", "-", " "}, a \in {" ", "F", "B"}, ch \in {"   0", "   +", "  --", "-1/3"}, qk \in {"uD", "(uU-dD)/sqrt(2)", "", "non-qQ"}}
Pairs == {<<"* comment", a, b>> :
             a \in {R("0.0E+00", "+", "0", "+", "-", "F", "31", "0", "X", "uds"), R("1.5E+01", "-", "1", "-", "+", "B", "31", "+", "X", "uD"), R("12", " ", "1/2", "+", " ", "F", "32", "-", "X", "dds")},
             b \in {R("2.0E+03", "+", "2", "+", "+", " ", "32", "0", "X", "x(uU+dD)+y(sS)"), R("9.9E-04", " ", "1/2", "+", " ", "B", "-31", "-", "X", "ddd"), R("1", " ", "1", "-", " ", "F", "31", "0", "Y", "dS"),
                    "not a row", R("1,5", " ", "1", "-", " ", "F", "33", "0", "Z", "dS"), ""}}
Imp == {<<R("7.0E+01", " ", "1/2", "+", " ", "F", "41", "+", "W", "udc")>>, <<R("8.0E+01", " ", "0", "-", " ", "B", "31", "+", "X", "uB")>>}
QN == <<"X0", "Xbar0", "X+", "X-", "Xbar+", "Xbar-", "X++", "Xbar++", "X--", "X-1/3", "X+1/3", "Xbar+1/3", "Y0", "Ybar0", "Z0", "W+", "Wbar-", "al", "new", "bar", "">>
QI == <<31, -31, 32, -32, 41, -41, 33, 0, 7>>
QParts == {"uD", "dU", "uud", "UUD", "sS", "(uU-dD)/sqrt(2)", "(uU+dD)/sqrt(2)", "x(uU+dD)+y(sS)", "uS", "sU", "", "non-qQ", "cU", "udc", "bbt", "UDB"}
OpsOf(s) ==
  IF s = Empty
  THEN {[f |-> "load", rows |-> r, names |-> QN, ids |-> QI] : r \in Shapes \cup Pairs}
       \cup {[f |-> "quarks", head |-> a, parts |-> <<b>>] : a, b \in QParts}
       \cup {[f |-> "quarks", head |-> a, parts |-> <<b, c>>] : a, b, c \in IF Wide THEN QParts ELSE {"uD", "dU", "uud", "(uU-dD)/sqrt(2)", "x(uU+dD)+y(sS)", "uS", "sU", ""}}
  ELSE IF Len(s.objs) < 3 /\ ~Wide THEN {}
  ELSE {[f |-> "alias", name |-> n, alias |-> a, names |-> QN, ids |-> QI] : n \in {"X0", "Xbar0", "X+", "al", "nope"}, a \in {"al", "X0"}}
       \cup {[f |-> "add", name |-> n, props |-> kv, names |-> QN, ids |-> QI] : n \in {"X+", "new", "al"}, kv \in {<<"mass", "2.5", "spin", "3/2">>, <<"charge", "+", "parity", "-", "quarks", "uS">>, <<"width", "0.125", "spin">>, <<"bogus", "1">>}}
       \cup {[f |-> "import", rows |-> r, names |-> QN, ids |-> QI] : r \in Imp}
INSTANCE Explore WITH Init0 <- Empty, Ops <- OpsOf, Step <- Do, Depth <- MaxDepth
Inv == Paired(st) /\ Found(st)
=============================================================================
