------------------------------ MODULE ExprText ------------------------------
(* Meaning of expression strings: from a token sequence to the tree it       *)
(* denotes.  Brackets and named functions bind tightest, then ^ / * - + > <  *)
(* and &&, each of them left associative.  Parameters are looked up by name  *)
(* when the string is read and stay live.                                    *)
EXTENDS Expr, Strings
Loosest == <<"&&", "<", ">", "+", "-", "*", "/", "^">>
Funs == {"sin", "cos", "tan", "acos", "atan", "asin", "sqrt", "exp", "log", "real", "imag", "abs"}
Multi == {"atan2", "Ternary"}
\* number of open brackets before position i
RECURSIVE Depths(_, _, _)
Depths(t, i, d) == IF i > Len(t) THEN <<>> ELSE <<IF t[i] = ")" THEN d - 1 ELSE d>> \o Depths(t, i + 1, IF t[i] = "(" THEN d + 1 ELSE IF t[i] = ")" THEN d - 1 ELSE d)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* decimal literals: [-+]digits[.digits]
NumLit(s) == LET b == IF Ch(s, 1) \in {"-", "+"} THEN Rest(s, 2) ELSE s IN AllDigits(b) \/ \E k \in 2..Len(b) - 1 : Ch(b, k) = "." /\ AllDigits(Sub(b, 1, k - 1)) /\ AllDigits(Rest(b, k + 1))
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
NumVal(s) == LET neg == Ch(s, 1) = "-"
                 b == IF Ch(s, 1) \in {"-", "+"} THEN Rest(s, 2) ELSE s
                 v == IF AllDigits(b) THEN <<NatVal(b, 1, 0), 1>>
                      ELSE LET k == First(b, ".") f == Rest(b, k + 1) IN <<NatVal(Sub(b, 1, k - 1), 1, 0) * Ten(Len(f)) + NatVal(f, 1, 0), Ten(Len(f))>>
             IN <<"c", IF neg THEN -v[1] ELSE v[1], v[2], 0, 1>>
\* end points; names is the sequence of known parameters, polar a flag, deg the angular unit
IndexOf(names, n) == CHOOSE k \in DOMAIN names : names[k] = n
Known(names, n) == \E k \in DOMAIN names : names[k] = n
EndPoint(n, names, polar, deg) ==
   CASE NumLit(n) -> NumVal(n)
     [] n \in {"PI", "pi", "M_PI"} -> <<"pi">>
     [] n = "e" -> <<"e">>
     [] n \in {"I", "i"} -> <<"c", 0, 1, 1, 1>>
     [] Known(names, n) -> <<"p", IndexOf(names, n)>>
     [] Known(names, n \o "_Re") /\ Known(names, n \o "_Im") ->
          LET re == <<"p", IndexOf(names, n \o "_Re")>> im == <<"p", IndexOf(names, n \o "_Im")>>
              unit == IF deg THEN <<"*", <<"c", 1, 180, 0, 1>>, <<"pi">>>> ELSE <<"c", 1, 1, 0, 1>>
          IN IF polar THEN <<"*", re, <<"exp", <<"*", <<"c", 0, 1, 1, 1>>, <<"*", unit, im>>>>>>>> ELSE <<"+", re, <<"*", <<"c", 0, 1, 1, 1>>, im>>>>
     [] OTHER -> <<"c", 0, 1, 0, 1>>
RECURSIVE Parse(_, _), ParseArgs(_, _)
Top(t, o) == LET d == Depths(t, 1, 0) IN {i \in DOMAIN t : t[i] = o /\ d[i] = 0}
ParseArgs(t, c) == LET s == Top(t, ",") IN IF s = {} THEN <<Parse(t, c)>> ELSE LET k == MaxOf(s) IN Append(ParseArgs(SubSeq(t, 1, k - 1), c), Parse(SubSeq(t, k + 1, Len(t)), c))
Parse(t, c) ==
   LET lv == {k \in 1..8 : Top(t, Loosest[k]) # {}} IN
   IF lv # {} THEN LET o == Loosest[MinOf(lv)] k == MaxOf(Top(t, o)) IN <<o, Parse(SubSeq(t, 1, k - 1), c), Parse(SubSeq(t, k + 1, Len(t)), c)>>
   ELSE IF t[1] \in Funs THEN <<t[1], Parse(Tail(t), c)>>
   ELSE IF t[1] \in Multi THEN LET a == ParseArgs(SubSeq(t, 3, Len(t) - 1), c) IN IF t[1] = "atan2" THEN <<"atan2", a[1], a[2]>> ELSE <<"?", a[1], a[2], a[3]>>
   ELSE IF t[1] = "(" THEN Parse(SubSeq(t, 2, Len(t) - 1), c)
   ELSE EndPoint(t[1], c.names, c.polar, c.deg)
\* the state: parameter values, and the trees of the strings read so far
Start(vals) == [vals |-> vals, held |-> <<>>]
Vals(s) == [k \in DOMAIN s.held |-> Ev(s.held[k], EnvOf(s.vals))]
Defined(s) == \A k \in DOMAIN s.held : Shown(Ev(s.held[k], EnvOf(s.vals)))
Do(s, o, c) == IF o.f = "parse" THEN [s EXCEPT !.held = Append(@, Parse(o.toks, c))] ELSE [s EXCEPT !.vals = o.vals]
=============================================================================
