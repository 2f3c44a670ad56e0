------------------------------- MODULE MC_P22 -------------------------------
(* P22: series of additions, histories of knots, and points of the barriers. *)
EXTENDS Interp, IOUtils
VARIABLES st, h
Part == IOEnv.PART
T == IOEnv.TIER = "thorough"
DEP == CHOOSE k \in 1..12 : ToString(k) = IOEnv.DEPTH
\* sums: each lane gets its own order of magnitude
Vals == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -3>>, <<0, 7>>, <<-2, 0>>}
Rot == << <<0, 1>>, <<0, -2>>, <<1, 0>>, <<-1, 0>>, <<0, 5>> >>
OpsS(s) == IF \E i \in 1..4 : IAbs(s.k[i][1]) > 4 \/ IAbs(s.k[i][2]) > 40 THEN {} ELSE
   {[f |-> g, v |-> [i \in 1..4 |-> IF i = 1 THEN v ELSE Rot[1 + ((i + j) % 5)]]] : g \in {"add", "plus"}, v \in Vals, j \in 0..4}
K3 == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -2>>}
RECURSIVE Ser(_)
Ser(n) == IF n = 0 THEN {<<>>} ELSE LET r == Ser(n - 1) IN r \cup {Append(q, v) : q \in {x \in r : Len(x) = n - 1}, v \in K3}
OpsK(s) == {[f |-> "klein", q |-> q] : q \in Ser(IF T THEN 7 ELSE 5)}
\* splines: knot values, and evaluation between, on and beyond the knots
Xs(k) == LET n == Sp[k][1] h0 == FDiv(FSub(Sp[k][3], Sp[k][2]), FI(n - 1)) IN {FAdd(Sp[k][2], FMul(FAdd(FI(i), u), h0)) : i \in 0..(n - 1), u \in {<<0, 1>>, <<1, 2>>, <<1, 4>>, <<2, 3>>}}
Four(k) == {<<a, a, a, a>> : a \in Xs(k)} \cup {[i \in 1..4 |-> FAdd(Sp[k][2], FMul(F((3 * i + j) % (4 * (Sp[k][1] - 1)), 4), FDiv(FSub(Sp[k][3], Sp[k][2]), FI(Sp[k][1] - 1))))] : j \in 0..7}
Evals(k) == {[f |-> "eval", k |-> k, x |-> x] : x \in Four(k)}
E1 == Evals(1)
E2 == Evals(2)
E3 == Evals(3)
E4 == Evals(4)
E5 == Evals(5)
E6 == Evals(6)
EvalsOf(k) == CASE k = 1 -> E1 [] k = 2 -> E2 [] k = 3 -> E3 [] k = 4 -> E4 [] k = 5 -> E5 [] k >= 6 -> E6
OpsP(s) == LET k == CHOOSE k \in 1..7 : ToString(k) = IOEnv.SP IN
   {[f |-> "knot", k |-> k, i |-> i, v |-> v] : i \in 1..Sp[k][1], v \in {-1, 2, 3}} \cup {[f |-> "prep", k |-> k]}
   \cup (IF s.p[k] = [i \in 1..Sp[k][1] |-> 0] THEN {} ELSE EvalsOf(k)) \cup (IF k \in {6, 7} /\ s.p[k] # [i \in 1..4 |-> 0] THEN {[f |-> "pair", x |-> x] : x \in Four(6)} \cup {[f |-> "prep", k |-> 13 - k], [f |-> "knot", k |-> 13 - k, i |-> 2, v |-> 1]} ELSE {})
\* barriers
Zs == {F(n, d) : n \in 0..12, d \in {1, 2, 3, 4, 5}} \cup {FI(15), FI(20), FI(21), <<21, 2>>, <<5, 2>>}
Ms == {FI(1), <<3, 2>>, FI(2), <<1, 2>>}
Ss == {F(n, 4) : n \in 1..24} \cup {FI(9), FI(12), FI(25), <<225, 16>>}
OpsB(s) == {[f |-> "bw", L |-> L, z |-> z] : L \in 0..4, z \in Zs} \cup {[f |-> "bwn", L |-> L, z |-> z, z0 |-> y] : L \in 0..4, z \in Zs, y \in {z \in Zs : T \/ z \in {FI(1), FI(2), FI(5), <<1, 2>>, FI(15), <<21, 2>>}}}
   \cup {[f |-> "q2", s |-> x, a |-> a, b |-> b] : x \in Ss, a \in {FI(0), <<1, 4>>, FI(1), <<9, 4>>}, b \in {FI(0), <<1, 4>>, <<1, 9>>, FI(1)}}
   \cup {[f |-> g, L |-> L, s |-> x, a |-> a, b |-> b, m |-> m, r |-> r] : g \in {"bl", "width"}, L \in 0..4, x \in {x \in Ss : T \/ x[1] % 3 # 1}, a \in {FI(0), <<1, 4>>, <<1, 9>>}, b \in {FI(0), <<1, 4>>}, m \in Ms, r \in {FI(0), FI(1), FI(2), <<1, 2>>}}
   \cup {[f |-> "pol", c |-> c, x |-> x] : c \in {<<>>, <<3>>, <<1, -2>>, <<0, 1, 4>>, <<2, 0, -1, 3>>}, x \in {FI(0), FI(2), <<-1, 2>>, <<3, 4>>}}
OpsOf(s) == CASE Part = "sum" -> OpsS(s) [] Part = "klein" -> OpsK(s) [] Part = "spline" -> OpsP(s) [] Part = "barrier" -> OpsB(s)
INSTANCE Explore WITH Init0 <- Start, Ops <- OpsOf, Step <- Apply, Depth <- DEP
\* the spline passes through its knots, also from the left, and reproduces straight lines
SP == CHOOSE k \in 1..7 : ToString(k) = IOEnv.SP
Inv == Part = "spline" => LET k == SP n == Sp[k][1] m == TLCEval(Curv(st.p[k])) IN
          /\ \A i \in 1..n - 1 : EvalM(k, st.p[k], m, FAdd(Sp[k][2], FMul(FI(i - 1), FDiv(FSub(Sp[k][3], Sp[k][2]), FI(n - 1))))) = FI(st.p[k][i])
          /\ \A i \in 2..n - 1 : FAdd(FAdd(m[i - 1], m[i + 1]), FMul(FI(4), m[i])) = FI(st.p[k][i + 1] - 2 * st.p[k][i] + st.p[k][i - 1])
=============================================================================
