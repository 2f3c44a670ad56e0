------------------------------- MODULE Rules -------------------------------
(* Amplitude rules: from declared decays with couplings to the complete      *)
(* cascades of a final state with the products of their couplings.           *)
(* A model is a sequence of entries                                          *)
(*   [k |-> "c", n, pre, re, im, fr, fi]  a complex coupling (flags fixed?)  *)
(*   [k |-> "r", n, pre, re, ...]         only its real part is declared     *)
(*   [k |-> "a", n, m, x]                 an alias n = m * x of parameter x  *)
(*   [k |-> "p", n, re]                   another parameter                  *)
(*   [k |-> "d", n, re]                   a decay added with a fixed value   *)
(* Angles (polar) are in degrees, multiples of 90.                           *)
EXTENDS Decay
CMulG(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Turn(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
IsRule(e) == e.k \in {"c", "a", "d"} /\ IsDecay(e.n)
Prefix(e) == IF e.k = "c" THEN e.pre ELSE ""
ParVal(M, x) == M[CHOOSE i \in DOMAIN M : M[i].k = "p" /\ M[i].n = x].re
Value(M, i, polar) == LET e == M[i] IN IF e.k = "a" THEN <<e.m * ParVal(M, e.x), 0>> ELSE IF e.k = "d" THEN <<e.re, 0>>
                      ELSE IF polar THEN CMulG(<<e.re, 0>>, Turn(e.im \div 90)) ELSE <<e.re, e.im>>
Fixed(M, i) == M[i].k = "c" /\ M[i].fr /\ M[i].fi
\* the head of each entry that is a rule, "" for others; M.ps are the entries, M.h their heads, M.d the texts of the daughters
Prep(ps) == TLCEval([ps |-> ps, h |-> [i \in DOMAIN ps |-> IF IsRule(ps[i]) THEN NameText(HeadText(ps[i].n)) ELSE ""]])
RulesOf(M, head) == {i \in DOMAIN M.h : M.h[i] = head}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Ascending(S \ {MinOf(S)})
\* all complete cascades of a descriptor: <<text, rules used (as sorted sequence)>>
RECURSIVE Merge2(_, _)
Merge2(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF a[1] <= b[1] THEN <<a[1]>> \o Merge2(Tail(a), b) ELSE <<b[1]>> \o Merge2(a, Tail(b))
RECURSIVE Cascades(_, _)
RECURSIVE Combos(_, _)
\* third component: the names of the final-state particles
Grown(M, s) == IF Contains(s, "{") THEN Cascades(M, s)
               ELSE LET R == RulesOf(M, NameText(s)) IN
                    IF R = {} THEN {<<s, <<>>, <<NameText(s)>>>>} ELSE UNION {{<<c[1], Merge2(<<i>>, c[2]), c[3]>> : c \in Cascades(M, M.ps[i].n)} : i \in R}
Combos(M, ds) == IF ds = <<>> THEN {<<<<>>, <<>>, <<>>>>} ELSE {<<<<x[1][1]>> \o x[2][1], Merge2(x[1][2], x[2][2]), x[1][3] \o x[2][3]>> : x \in Grown(M, ds[1]) \X Combos(M, Tail(ds))}
Cascades(M, s) == {<<HeadText(s) \o "{" \o JoinWith(c[1], ",") \o "}", c[2], c[3]>> : c \in Combos(M, DaughterTexts(s))}
Times(q, n) == Cardinality({k \in DOMAIN q : q[k] = n})
SameNames(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Times(a, a[k]) = Times(b, a[k])
\* those that end in the final state, by head rule: <<printed form, rules, head rule>>
MatchOf(M, i, fs) == {<<Text(Placed(c[1], fs).t), Merge2(<<i>>, c[2]), i>> : c \in {x \in Cascades(M, M.ps[i].n) : SameNames(x[3], fs)}}
Matches(M, mother, fs, pre) == UNION {MatchOf(M, i, fs) : i \in {j \in RulesOf(M, mother) : Prefix(M.ps[j]) = pre}}
FirstOnly(S) == {x \in S : \A y \in S : y[1] = x[1] => x[3] <= y[3]}
Ambiguous(M, S, polar) == \E x, y \in S : x[1] = y[1] /\ x[2] # y[2]
RECURSIVE ProdV(_, _, _, _)
ProdV(M, q, polar, k) == IF k = 0 THEN <<1, 0>> ELSE CMulG(Value(M, q[k], polar), ProdV(M, q, polar, k - 1))
\* later values: changes <<entry, re, im>>
RECURSIVE ChangeAll(_, _, _)
ChangeAll(M, ch, k) == IF k > Len(ch) THEN M ELSE
  LET c == ch[k] IN ChangeAll(IF M[c[1]].k = "c" THEN [M EXCEPT ![c[1]] = [@ EXCEPT !.re = c[2], !.im = c[3]]]
                              ELSE IF M[c[1]].k = "p" THEN [M EXCEPT ![c[1]] = [@ EXCEPT !.re = c[2]]] ELSE M, ch, k + 1)
\* declared decays keep their text, added ones have the printed form
RuleName(e) == IF e.k = "d" THEN Text(Parsed(e.n)) ELSE e.n
Heads(M) == LET H == {M.h[i] : i \in DOMAIN M.h} \ {""} q == Ordered(H, LAMBDA a_, b_ : StrLess(a_, b_, 1))
            IN [k \in DOMAIN q |-> LET R == Ascending(RulesOf(M, q[k])) IN <<q[k], [j \in DOMAIN R |-> RuleName(M.ps[R[j]])], LET A == SelectSeq(R, LAMBDA r_ : Prefix(M.ps[r_]) = "A") IN [j \in DOMAIN A |-> RuleName(M.ps[A[j]])]>>]
Uses(ps, q, x) == \E j \in DOMAIN q : Contains(RuleName(ps[q[j]]), x)
\* the bound variables make TLC evaluate the matches once
Chosen(o, M, S, q, N) ==
  IF Ambiguous(o.ps, S, o.polar) THEN "?"
  ELSE <<Heads(M), [k \in DOMAIN q |-> <<q[k][1], ProdV(o.ps, q[k][2], o.polar, Len(q[k][2])), \A j \in DOMAIN q[k][2] : Fixed(o.ps, q[k][2][j]), Len(q[k][2]), Uses(o.ps, q[k][2], "rho(770)0"), Uses(o.ps, q[k][2], "LASS")>>],
         [k \in DOMAIN q |-> ProdV(N, q[k][2], o.polar, Len(q[k][2]))]>>
RulesObs(o) == CHOOSE r \in UNION {{Chosen(o, M, S, Ordered(S, LAMBDA a_, b_ : StrLess(a_[1], b_[1], 1)), ChangeAll(o.ps, o.ch, 1)) : S \in {FirstOnly(T) : T \in {Matches(M, o.mother, o.fs, o.pre)}}} : M \in {Prep(o.ps)}} : TRUE
Do3(s, o) == [s |-> s, o |-> RulesObs(o)]
=============================================================================
