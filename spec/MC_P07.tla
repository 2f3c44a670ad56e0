------------------------------- MODULE MC_P07 -------------------------------
(* P07: every tree of the enumerated families, and every group of trees of   *)
(* the given file.                                                           *)
EXTENDS Jit, IOUtils, Json
VARIABLES st, h
C(n, d, m, e) == <<"c", n, d, m, e>>
X(k) == <<"v", k>>
P(k) == <<"p", k>>
ZP == <<"z">>
Big == IOEnv.SIZE = "2"
Pars == <<<<<<3, 1>>, <<-2, 1>>, <<5, 2>>, <<4, 1>>, <<-1, 1>>, <<0, 1>>, <<0, 1>>, <<1, 1>>, <<2, 1>>>>,
          <<<<1, 2>>, <<3, 2>>, <<7, 1>>, <<-2, 1>>, <<8, 1>>, <<0, 1>>, <<0, 1>>, <<-3, 1>>, <<1, 2>>>>>>
Evs == <<<<<<3, 1>>, <<-2, 1>>>>, <<<<1, 2>>, <<4, 1>>>>, <<<<-1, 1>>, <<5, 2>>>>, <<<<2, 1>>, <<2, 1>>>>, <<<<-4, 1>>, <<1, 4>>>>>>
Arith == {"+", "-", "*", "/"}
B(ops, A, D) == {<<o, a, b>> : o \in ops, a \in A, b \in D}
Lr == {X(1), X(2), P(1), P(2), P(3), P(4), P(5), P(6), P(7), C(2, 1, 0, 1), C(-3, 2, 0, 1)}
Ls == {X(1), P(1), P(6), C(2, 1, 0, 1)}
Lc == {ZP, C(1, 1, -2, 1), C(0, 1, 1, 1)}
Ln == IF Big THEN {X(1), X(2), P(6), P(2), P(4)} ELSE {X(1), P(6), P(2)}
T1 == Lr \cup Lc \cup B(Arith, Lr, Lr) \cup B(Arith, Lc, Ls) \cup B(Arith, Ls, Lc) \cup B(Arith, Lc, Lc)
T2 == {<<o, <<q, a, b>>, c>> : o \in Arith, q \in Arith, a \in Ln, b \in Ln, c \in {X(2), P(6)}} \cup {<<o, c, <<q, a, b>>>> : o \in Arith, q \in Arith, a \in Ln, b \in Ln, c \in {X(2), P(6)}}
   \cup {<<o, <<q, a, b>>, c>> : o \in Arith, q \in Arith, a \in {ZP, X(1)}, b \in {ZP, P(6)}, c \in {ZP, X(2)}} \cup {<<o, c, <<q, a, b>>>> : o \in Arith, q \in Arith, a \in {ZP, X(1)}, b \in {ZP, P(6)}, c \in {ZP, X(2)}}
Cx == {ZP} \cup B(Arith, {ZP}, {X(1), P(6), ZP}) \cup B(Arith, {X(1)}, {ZP}) \cup {<<"*", C(0, 1, 1, 1), X(1)>>, <<"+", <<"*", C(0, 1, 1, 1), X(2)>>, X(1)>>}
Sq(t) == <<"*", t, t>>
Uc == {<<f, t>> : f \in {"real", "imag", "norm", "conj", "neg"}, t \in Cx} \cup {<<"*", <<f, t>>, s>> : f \in {"real", "imag", "norm", "conj", "neg"}, t \in Cx, s \in {X(1), P(6), ZP}}
Ur == {<<f, t>> : f \in {"neg", "abs", "fpow2"}, t \in B(Arith, Ls, {X(2), P(2)})} \cup {<<f, Sq(t)>> : f \in {"sqrt", "isqrt", "safe_sqrt"}, t \in Lr}
   \cup {<<"*", <<f, Sq(t)>>, s>> : f \in {"sqrt", "isqrt"}, t \in {X(1), P(6), P(4)}, s \in {X(2), P(2), ZP}} \cup {<<"-", s, <<f, Sq(t)>>>> : f \in {"sqrt", "isqrt"}, t \in {X(1), P(6)}, s \in {X(2), P(2), ZP}}
   \cup {<<"/", s, <<f, Sq(t)>>>> : f \in {"sqrt", "isqrt", "abs"}, t \in {X(1), P(6)}, s \in {X(2), P(2), ZP}}
Un2(S) == {IF t[1] = "fpow2" THEN <<"fpow", t[2], 2>> ELSE t : t \in S}
Cmp == {">", "<", ">=", "<=", "=="}
Conds == {<<o, a, b>> : o \in Cmp, a \in {X(1), P(1)}, b \in {X(2), C(2, 1, 0, 1)}}
Cond2 == Conds \cup {<<o, c, d>> : o \in {"&&", "||"}, c \in {<<">", X(1), C(0, 1, 0, 1)>>, <<"<", P(1), P(2)>>}, d \in {<<"<=", X(2), X(1)>>, <<">=", X(2), C(2, 1, 0, 1)>>}}
Tc == {<<"?", c, a, b>> : c \in Cond2, a \in {X(1), <<"+", X(1), P(1)>>}, b \in {C(2, 1, 0, 1), <<"*", X(2), P(6)>>}}
   \cup {<<"?", c, a, b>> : c \in Conds, a \in {ZP, X(1)}, b \in {ZP, <<"*", ZP, X(2)>>}} \cup {<<"*", <<"?", c, a, b>>, d>> : c \in Conds, a \in {X(1)}, b \in {X(2), P(6)}, d \in {X(1), <<"-", X(1), P(6)>>}}
Cse(t) == <<"cse", t>>
Tp == {<<"*", X(1), P(1)>>, <<"*", X(1), P(6)>>, <<"+", X(1), P(4)>>, <<"+", X(1), P(5)>>, <<"-", ZP, X(2)>>, <<"/", X(1), X(2)>>}
Ts == {<<o, Cse(a), Cse(b)>> : o \in {"+", "-", "*"}, a \in Tp, b \in Tp}
   \cup {<<o, Cse(<<q, Cse(a), b>>), Cse(a)>> : o \in {"-", "/"}, q \in {"+", "*"}, a \in Tp, b \in Tp}
   \cup {<<o, Cse(a), Cse(<<q, Cse(b), Cse(<<"+", Cse(a), Cse(b)>>)>>)>> : o \in {"-", "*"}, q \in {"-"}, a \in Tp, b \in Tp}
   \cup {<<"-", <<"csens", <<q, b, Cse(a)>>>>, <<"csens", <<q, Cse(a), b>>>>>> : q \in {"+", "*"}, a \in Tp, b \in Tp}
Tt == {<<f, <<"*", <<"*", C(n, d, 0, 1), <<"pi">>>>, t>>>> : f \in {"sin", "cos", "tan"}, n \in {1, -1, 5}, d \in {1, 2, 4, 6}, t \in {X(1), P(4)}}
   \cup {<<f, t>> : f \in {"exp", "log"}, t \in {<<"-", X(1), X(1)>>, <<"/", X(1), X(1)>>, <<"/", P(6), P(6)>>}} \cup {<<"exp", <<"*", C(0, 1, 1, 2), <<"*", <<"pi">>, t>>>>>> : t \in {Sq(P(4)), P(4)}}
   \cup {<<"atan2", s, t>> : s \in {X(1), P(1)}, t \in {X(1), <<"-", X(1), X(1)>>, <<"neg", X(1)>>, P(1)}} \cup {<<"fmod", s, t>> : s \in {X(1), X(2), P(1), <<"*", X(1), X(2)>>}, t \in {C(2, 1, 0, 1), C(1, 2, 0, 1), P(4), <<"*", P(4), C(1, 4, 0, 1)>>}}
Simd == T1 \cup T2 \cup Uc \cup Un2(Ur) \cup Tc \cup Ts \cup Tt
Scal == {<<"^", t, C(n, 1, 0, 1)>> : t \in {X(1), ZP, P(6), <<"*", X(1), ZP>>}, n \in -2..4} \cup {<<"^", t, P(4)>> : t \in {X(1), P(1)}} \cup {<<"*", <<"^", t, C(2, 1, 0, 1)>>, X(2)>> : t \in {X(1), <<"-", X(1), P(6)>>}}
   \cup {<<f, <<"/", t, <<"*", t, s>>>>>> : f \in {"asin", "acos", "atan"}, t \in {X(1), P(1)}, s \in {C(2, 1, 0, 1), C(1, 1, 0, 1), C(-2, 1, 0, 1)}} \cup {<<"abs", t>> : t \in Cx} \cup {<<f, <<"*", ZP, <<"conj", ZP>>>>>> : f \in {"real", "imag", "abs"}} \cup {<<"sqrt", Sq(ZP)>>}
Families == {[simd |-> 1, t |-> t] : t \in {u \in Simd : Defined(u, Pars, Evs)}} \cup {[simd |-> 0, t |-> t] : t \in {u \in Scal : Defined(u, Pars, Evs)}}
Given == ndJsonDeserialize(IOEnv.TREES)
Good(o) == [o EXCEPT !.ts = SelectSeq(o.ts, LAMBDA t : Defined(t, o.pars, o.evs))]
OpsOf(s) == IF IOEnv.PART = "families" THEN {[f |-> "jit", share |-> 0, simd |-> x.simd, ts |-> <<x.t>>, evs |-> Evs, pars |-> Pars] : x \in Families}
            ELSE {o \in {Good(Given[i]) : i \in DOMAIN Given} : Len(o.ts) > 0}
StepOf(s, o) == [s |-> s, o |-> Outcome(o)]
INSTANCE Explore WITH Init0 <- [x |-> 0], Ops <- OpsOf, Step <- StepOf, Depth <- 1
Inv == st.x = 0
=============================================================================
