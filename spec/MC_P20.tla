------------------------------- MODULE MC_P20 -------------------------------
(* P20: every input of the enumerated families, one call each.               *)
EXTENDS Text, IOUtils
VARIABLES st, h
N == atoi(IOEnv.DEPTH)
RECURSIVE DecayT(_)
DecayT(n) == IF n = 0 THEN {"a", "b*"} ELSE DecayT(n - 1) \cup {"X{" \o s \o "," \o t \o "}" : s \in DecayT(n - 1), t \in DecayT(n - 1)} \cup {"Y[D;k]{" \o s \o "," \o t \o ",c}" : s \in {"a"}, t \in DecayT(n - 1)} \cup {"Z{" \o s \o "}" : s \in DecayT(n - 1)}
Env == <<<<"VFA", "one">>, <<"VFB", "t/wo">>, <<"VFE", "">>>>
Words == Strs({"1", "0", "-", ".", "q"}, 4) \ {""}
OpsAll ==
   {[f |-> "split", s |-> s, d |-> d] : s \in Strs({"a", ",", " "}, 4 + N), d \in {",", " "}}
   \cup {[f |-> "splitany", s |-> s, ds |-> ds] : s \in Strs({"a", "b", ",", "{"}, 3 + N), ds \in {<<",">>, <<",", "{">>, <<"{", ",", "b">>}}
   \cup {[f |-> "join", q |-> q, d |-> d] : q \in Seqs({"", "a", "bc"}, 4), d \in {"", ",", "--"}}
   \cup {[f |-> "trim", s |-> s] : s \in Strs({"a", " ", "\t"}, 4 + N)}
   \cup {[f |-> "find", s |-> s, p |-> p] : s \in Strs({"a", "b"}, 5 + N), p \in Strs({"a", "b"}, 3) \ {""}}
   \cup {[f |-> "next", s |-> s, ps |-> ps, b |-> b] : s \in Strs({"a", "b", "c"}, 4), ps \in {<<"a">>, <<"b", "ca">>, <<"bb", "a", "c">>}, b \in 0..3}
   \cup {[f |-> "replace", s |-> s, a |-> a, b |-> b] : s \in Strs({"a", "b"}, 5), a \in Strs({"a", "b"}, 2 + N), b \in {"", "a", "b", "ab", "aab"}}
   \cup {[f |-> "rules", s |-> s, r |-> r] : s \in Strs({"a", "b", "c"}, 4), r \in {<<>>, <<<<"a", "b">>, <<"b", "c">>>>, <<<<"ab", "b">>, <<"b", "aa">>, <<"c", "">>>>}}
   \cup {[f |-> "swap", s |-> s, a |-> "+", b |-> "-"] : s \in Strs({"+", "-", "K"}, 4)}
   \cup {[f |-> "wild", s |-> s, p |-> p, w |-> "*"] : s \in Strs({"a", "b"}, 3 + N), p \in Strs({"a", "b", "*"}, 4)}
   \cup {[f |-> "wild", s |-> s, p |-> p, w |-> "?"] : s \in Strs({"a", "*"}, 4), p \in Strs({"a", "*", "?"}, 3)}
   \cup {[f |-> "edit", s |-> s, t |-> t] : s \in Strs({"a", "b"}, 3 + N), t \in Strs({"a", "b"}, 3)}
   \cup {[f |-> "items", s |-> s, b |-> <<"{", "}">>, sep |-> ","] : s \in DecayT(2) \cup Strs({"{", "}", "a"}, 4)}
   \cup {[f |-> "items", s |-> s, b |-> <<"[", "]">>, sep |-> ";"] : s \in {"K", "K[D]", "K[D;a;b]", "K*(892)0[S;L.S]", "x[]", "x[;]", "x[a[b;c];d]"}}
   \cup {[f |-> "num", s |-> s] : s \in Words}
   \cup {[f |-> "round", n |-> n, e |-> e, d |-> d] : n \in {m \in -2100..2100 : (m % 37) \in {0, 1, 5}}, e \in {123, 1499, 7}, d \in 0..3}
   \cup {[f |-> "ncr", n |-> n, r |-> r] : n \in 0..6, r \in 0..6}
   \cup {[f |-> "product", q |-> q] : q \in Seqs({<<1>>, <<2, 3>>, <<4, 5, 6>>, <<>>}, 3)}
   \cup {[f |-> "sort", q |-> q, g |-> g] : q \in Seqs({1, 2, 3}, 4 + N), g \in {0, 1, 2, 3, 100}}
   \cup {[f |-> "acc", q |-> q, init |-> i] : q \in Seqs({1, 2, 3}, 4), i \in {0, 5}}
   \cup {[f |-> "lines", ls |-> ls, c |-> c] : ls \in Seqs({"a b", "# x", "", "b#\r", "*"}, 3), c \in {"#", "*"}}
   \cup {[f |-> "expand", s |-> s, env |-> Env] : s \in {p \o q \o r : p \in {"", "/x/"}, q \in {"$VFA", "${VFA}", "$VFB", "${VFB}", "${VFE}", "$VFNO", "plain"}, r \in {"", "/y.opt", ".z", "/$VFA", "/${VFB}w", "/${VFNO}"}}}
   \cup {[f |-> "expand", s |-> s, env |-> Env] : s \in {"${VFA}${VFB}", "${VFA}x${VFA}.t", "a$VFA.b$VFB/c"}}
   \cup {[f |-> "ls", files |-> fs, p |-> p] : fs \in {<<>>, <<"a.opt", "ab.opt", "b.txt">>, <<"x">>}, p \in {"", "*", "a*", "*.opt", "*b*", "x", "a*.txt"}}
   \cup {[f |-> "enum", s |-> s] : s \in {"Alpha", "Beta", "Alphabet", "B", "Al", "Invalid", "", "alpha", "0", "3", "4", "-1", "Alpha ", " Beta", "Bet", ","}}
Sane(o) == (o.f = "ncr" => o.r <= o.n) /\ (o.f = "round" => NoTie(o.n, o.d) /\ NonZero(o.n, o.d) /\ NoTie(o.e, o.d)) /\ (o.f = "replace" => o.a # o.b) /\ (o.f = "items" => (Balanced(o.s, 1, 0, o.b) => Cardinality(Occ(o.s, o.b[1])) <= 1 \/ ~StartsWith(o.s, "{") ))
OpsOf(s) == {o \in OpsAll : Sane(o)}
StepOf(s, o) == [s |-> s, o |-> Do(o)]
INSTANCE Explore WITH Init0 <- [x |-> 0], Ops <- OpsOf, Step <- StepOf, Depth <- 1
Inv == st.x = 0
\* laws of the contracts themselves
ASSUME \A s \in Strs({"a", ","}, 5) : JoinWith(Pieces(s, {","}, ""), ",") = s
ASSUME \A s \in Strs({"a", "b"}, 3), t \in Strs({"a", "b"}, 3) : Edit(s, t) = Edit(t, s) /\ (Edit(s, t) = 0 <=> s = t)
ASSUME \A s \in Strs({"a", "b"}, 4) : Wild(s, "*", "*") /\ Wild(s, s, "*") /\ Replace(s, "c", "d") = s
ASSUME \A n \in 0..5, r \in 0..5 : r <= n => Len(Choose(n, r)) = Len(Choose(n, n - r))
=============================================================================
