------------------------------- MODULE MC_P06 -------------------------------
(* P06: every tree of the enumerated families, evaluated as built, in normal *)
(* form, with sub-trees expanded, as shared sub-expression and after         *)
(* changing the parameters, has the value of the arithmetic.                 *)
EXTENDS Expr, IOUtils
VARIABLES st, h
C(n, d, m, e) == <<"c", n, d, m, e>>
I(n) == C(n, 1, 0, 1)
P(k) == <<"p", k>>
Envs == <<<<<<3, 1>>, <<-2, 1>>, <<1, 2>>>>, <<<<5, 2>>, <<4, 1>>, <<-1, 1>>>>>>
Deep == IOEnv.DEPTH = "2"
Leaves1 == {I(0), I(1), I(-1), I(2), C(-3, 2, 0, 1), C(0, 1, 1, 1), C(1, 1, -2, 1), C(1, 3, 0, 1), P(1), P(2), P(3), P(4)}
Leaves2 == IF Deep THEN {I(0), I(1), I(-2), C(0, 1, 1, 1), P(1), P(2)} ELSE {I(-2), C(0, 1, 1, 1), P(1), P(2)}
Arith == {"+", "-", "*", "/"}
Bins == {"+", "-", "*", "/", "^", ">", "<", ">=", "<=", "==", "&&", "||", "fmod", "+=", "-=", "*=", "/="}
Uns == {"neg", "sqrt", "isqrt", "abs", "norm", "conj", "real", "imag", "cse", "csens", "simp", "simpx", "safe_sqrt", "complex_sqrt"}
B(ops, A, D) == {<<o, a, b>> : o \in ops, a \in A, b \in D}
T1 == Leaves1 \cup B(Bins, Leaves1, Leaves1)
T1u == {<<u, t>> : u \in Uns \ {"complex_sqrt"}, t \in T1} \cup {<<"complex_sqrt", t>> : t \in Leaves1 \cup B({"+", "-", "*"}, Leaves1, Leaves1)}   \* (a division can leave a negative zero, which selects the other branch)
A1 == Leaves2 \cup B(Arith, Leaves2, Leaves2)
T2 == B(Arith, A1, A1)
T2u == {<<o, <<u, t>>, s>> : o \in Arith, u \in {"conj", "cse", "simp", "neg", "real"}, t \in B(Arith, {C(0, 1, 1, 1), P(1), P(2)}, {C(1, 1, -2, 1), P(1), P(2)}), s \in {I(-2), P(1), <<"-", P(1), P(2)>>, <<"^", P(1), I(2)>>}}
Tc == {<<"?", <<o, a, b>>, s, t>> : o \in {">", "<", "&&", "||", "==", ">=", "<="}, a \in {P(1), I(3)}, b \in {P(2), P(1), I(0)}, s \in {P(1), I(2), <<"+", P(1), P(2)>>}, t \in {P(2), <<"*", P(1), C(0, 1, 1, 1)>>}}
Tp == {<<o, <<b, s, t>>, u>> : o \in Arith, b \in {"^", "fmod", ">", "==", "&&", "||", "<="}, s \in {P(1), I(2), <<"-", P(1), P(2)>>}, t \in {I(2), P(2), I(0), I(1)}, u \in {P(1), I(-3), <<"+", P(2), I(1)>>, <<"*", P(1), P(2)>>}}
Tf == {<<"fpow", t, n>> : t \in Leaves1 \cup B(Arith, {P(1)}, {P(2), I(2)}), n \in -3..4}
PiM(n, d) == <<"*", C(n, d, 0, 1), <<"pi">>>>
Tt == {<<f, PiM(n, d)>> : f \in {"sin", "cos", "tan"}, n \in -13..13, d \in {1, 2, 4, 6}}
   \cup {<<f, <<"*", C(n, d, 0, 1), <<"*", <<"pi">>, P(4)>>>>>> : f \in {"sin", "cos", "tan"}, n \in {-1, 1, 2, 5}, d \in {1, 2, 4, 6}}
   \cup {<<f, t>> : f \in {"asin", "acos", "atan", "exp", "log"}, t \in {I(0), I(1), I(-1), C(1, 2, 0, 1), C(-1, 2, 0, 1), P(3), P(4), <<"e">>, C(0, 1, 1, 1), <<"*", C(0, 1, 1, 2), <<"pi">>>>, <<"*", C(0, 1, -3, 2), <<"*", <<"pi">>, P(4)>>>>}}
   \cup {<<"atan2", s, t>> : s \in {I(0), I(1), I(-2), P(1), P(2)}, t \in {I(0), I(1), I(2), P(2), <<"-", P(4), P(1)>>}}
Td == {<<"d", f, t>> : f \in {"log", "sqrt", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "isqrt"},
                       t \in {P(1), P(2), P(3), P(4), C(3, 5, 0, 1), C(-4, 5, 0, 1), C(4, 1, 0, 1), <<"*", P(4), C(4, 1, 0, 1)>>, <<"*", P(4), C(9, 1, 0, 1)>>, <<"*", P(4), C(3, 5, 0, 1)>>, <<"*", P(4), C(-5, 13, 0, 1)>>, I(0), <<"-", P(4), P(4)>>}
                            \cup {<<"*", <<"*", C(n, d, 0, 1), <<"pi">>>>, P(4)>> : n \in {0, 1, 2, 3, -1}, d \in {1, 2, 4, 6}}}
EnvSets == <<[k \in 1..4 |-> IF k = 4 THEN IntV(1) ELSE EnvOf(Envs[1])[k]], [k \in 1..4 |-> IF k = 4 THEN IntV(1) ELSE EnvOf(Envs[2])[k]]>>
EnvNums == <<Append(Envs[1], <<1, 1>>), Append(Envs[2], <<1, 1>>)>>
Trees == T1 \cup T1u \cup T2 \cup T2u \cup Tc \cup Tp \cup Tf \cup Tt \cup Td
Good(t) == \A k \in 1..2 : Shown(Ev(t, EnvSets[k]))
OpsOf(s) == {[f |-> "tree", t |-> t, envs |-> EnvNums] : t \in {u \in Trees : Good(u)}}
StepOf(s, o) == LET v == [k \in 1..2 |-> Show(Ev(o.t, EnvOf(o.envs[k])))] IN [s |-> s, o |-> <<v, v, v, v>>]
INSTANCE Explore WITH Init0 <- [x |-> 0], Ops <- OpsOf, Step <- StepOf, Depth <- 1
\* algebraic laws of the arithmetic the specification is written in
LawPool == {Ev(t, EnvSets[2]) : t \in Leaves1}
Laws == \A a, b, c \in LawPool :
   /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a) /\ Add(Add(a, b), c) = Add(a, Add(b, c))
   /\ (IsV(Mul(a, Add(b, c))) => Same(Mul(a, Add(b, c)), Add(Mul(a, b), Mul(a, c))))
   /\ (IsV(Div(a, b)) => Same(Mul(Div(a, b), b), a))
Inv == st.x = 0
ASSUME Laws
=============================================================================
