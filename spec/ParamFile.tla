------------------------------ MODULE ParamFile ------------------------------
(* Loading parameters: option lines (token sequences) become real or complex *)
(* parameters, aliases (live expressions) or nothing; masses, widths and     *)
(* radii are copied to antiparticles.  A member is a record                  *)
(*   [name, flag, v, step, lo, hi, e]   with e = <<>> or the alias' tree,    *)
(* whose leaves <<"p", k>> are positions in the list.                        *)
EXTENDS ExprText
Flags == <<"Free", "Hide", "Fix", "CompileTimeConstant", "Blind">>
IsFlag(w) == (\E k \in 1..5 : Flags[k] = w) \/ w \in {"0", "1", "2", "3", "4"}
FlagOf(w) == IF \E k \in 1..5 : Flags[k] = w THEN w ELSE Flags[DigitVal(w) + 1]
NumQ(w) == LET c == NumVal(w) IN Q(c[2], c[3])
\* particle -> antiparticle, for the names used
Anti(p) == CASE p = "K*(892)+" -> "K*(892)bar-" [] p = "K*(892)bar-" -> "K*(892)+" [] p = "K*(892)0" -> "K*(892)bar0" [] p = "K*(892)bar0" -> "K*(892)0" [] p = "D0" -> "Dbar0" [] p = "Dbar0" -> "D0"
             [] p = "a(1)(1260)+" -> "a(1)(1260)-" [] p = "a(1)(1260)-" -> "a(1)(1260)+" [] p = "Lambda0" -> "Lambdabar0" [] p = "Lambdabar0" -> "Lambda0" [] OTHER -> ""
Names(s) == [k \in DOMAIN s |-> s[k].name]
Has(s, n) == \E k \in DOMAIN s : s[k].name = n
Put1(s, p) == IF Has(s, p.name) THEN s ELSE Append(s, p)
Real(n, flag, v, st, lo, hi) == [name |-> n, flag |-> FlagOf(flag), v |-> v, step |-> st, lo |-> lo, hi |-> hi, e |-> <<>>]
AllNum(t, ks) == \A k \in ks : NumLit(t[k])
TryParameter(s, t) ==
   CASE Len(t) = 4 /\ IsFlag(t[2]) /\ AllNum(t, {3, 4}) -> Put1(s, Real(t[1], t[2], NumQ(t[3]), NumQ(t[4]), Z, Z))
     [] Len(t) = 6 /\ IsFlag(t[2]) /\ AllNum(t, 3..6) -> Put1(s, Real(t[1], t[2], NumQ(t[3]), NumQ(t[4]), NumQ(t[5]), NumQ(t[6])))
     [] Len(t) = 7 /\ IsFlag(t[2]) /\ IsFlag(t[5]) /\ AllNum(t, {3, 4, 6, 7}) ->
          Put1(Put1(s, Real(t[1] \o "_Re", t[2], NumQ(t[3]), NumQ(t[4]), Z, Z)), Real(t[1] \o "_Im", t[5], NumQ(t[6]), NumQ(t[7]), Z, Z))
     [] Len(t) = 11 /\ IsFlag(t[2]) /\ IsFlag(t[7]) /\ AllNum(t, (3..6) \cup (8..11)) ->
          Put1(Put1(s, Real(t[1] \o "_Re", t[2], NumQ(t[3]), NumQ(t[4]), NumQ(t[5]), NumQ(t[6]))), Real(t[1] \o "_Im", t[7], NumQ(t[8]), NumQ(t[9]), NumQ(t[10]), NumQ(t[11])))
     [] OTHER -> s
Alias(n, e) == [name |-> n, flag |-> "Hide", v |-> Z, step |-> Z, lo |-> Z, hi |-> Z, e |-> e]
IsAlias(t) == Len(t) >= 3 /\ t[2] = "="
TryAlias(s, t) == IF IsAlias(t) THEN Put1(s, Alias(t[1], Parse(SubSeq(t, 3, Len(t)), [names |-> Names(s), polar |-> FALSE, deg |-> FALSE]))) ELSE s
RECURSIVE Fold(_, _, _)
Fold(F(_, _), s, ls) == IF ls = <<>> THEN s ELSE Fold(F, F(s, Head(ls)), Tail(ls))
\* repeated keys: the last definition, at the place of the first
Surviving(ls) == LET first == {k \in DOMAIN ls : \A j \in 1..k - 1 : ls[j][1] # ls[k][1]}
                     last(k) == MaxOf({j \in DOMAIN ls : ls[j][1] = ls[k][1]})
                     seq == SelectSeq([k \in DOMAIN ls |-> k], LAMBDA k : k \in first)
                 IN [k \in DOMAIN seq |-> ls[last(seq[k])]]
\* "<particle>_mass" and the like
Suffixes == <<"_mass", "_width", "_radius">>
PartOf(n) == LET c == {k \in 1..3 : Len(n) > Len(Suffixes[k]) /\ Rest(n, Len(n) - Len(Suffixes[k]) + 1) = Suffixes[k]}
             IN IF c = {} THEN <<"", "">> ELSE LET k == CHOOSE k \in c : TRUE IN <<Sub(n, 1, Len(n) - Len(Suffixes[k])), Suffixes[k]>>
RECURSIVE AntiDefaults(_, _, _)
AntiDefaults(s, base, k) ==
   IF k > Len(base) THEN s
   ELSE LET w == PartOf(base[k].name) a == Anti(w[1])
        IN AntiDefaults(IF a # "" /\ ~Has(base, a \o w[2]) THEN Put1(s, Alias(a \o w[2], <<"real", <<"p", k>>>>)) ELSE s, base, k + 1)
LoadOptions(ls) == LET u == Surviving(ls) s1 == Fold(TryParameter, <<>>, u) s2 == Fold(TryAlias, s1, u) IN AntiDefaults(s2, s2, 1)
LoadFile(ls) == LET Both(s, t) == TryAlias(TryParameter(s, t), t) IN Fold(Both, <<>>, ls)
\* values: an alias is the real part of its expression
RECURSIVE ValueOf(_, _)
ValueOf(s, k) == IF s[k].e = <<>> THEN G(s[k].v, Z, Dyadic(s[k].v)) ELSE RealV(Ev(s[k].e, [j \in 1..k - 1 |-> ValueOf(s, j)]))
DefinedP(s) == \A k \in DOMAIN s : Shown(ValueOf(s, k))
ShowQ(q) == Show1(q, Z)
ObserveP(s) == [k \in DOMAIN s |-> <<s[k].name, s[k].flag, Show1(ValueOf(s, k).re, ValueOf(s, k).pr), ShowQ(s[k].step), ShowQ(s[k].lo), ShowQ(s[k].hi)>>]
Index(s, n) == CHOOSE k \in DOMAIN s : s[k].name = n
DoP(s, o) == CASE o.f = "load" -> LoadOptions(o.lines) [] o.f = "file" -> LoadFile(o.lines)
               [] o.f = "set" -> IF Has(s, o.n) /\ s[Index(s, o.n)].e = <<>> THEN [s EXCEPT ![Index(s, o.n)].v = Q(o.x[1], o.x[2])] ELSE s
UniqueP(s) == \A j, k \in DOMAIN s : j # k => s[j].name # s[k].name
=============================================================================
