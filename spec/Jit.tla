-------------------------------- MODULE Jit ---------------------------------
(* Compiled expressions: a set of trees over event variables v1, v2 and      *)
(* parameters is compiled; for every parameter setting and every event each  *)
(* way of evaluating (one event at a time, whole batch, in vector lanes, as  *)
(* batch of vectors, all trees in one function) gives the value of the tree. *)
(* Parameters: 1, 2, 8, 9 belong to the parameter set, 3 keeps the default   *)
(* it was given, 4 and 5 are functions, 6 and 7 are an alias for p1 + p2.    *)
EXTENDS Expr, FiniteSets
EnvAt(pars, k, ev) == LET p == pars[k] IN
   [j \in 1..11 |-> CASE j = 3 -> R(pars[1][3][1], pars[1][3][2])
                      [] j \in {6, 7} -> Add(R(p[1][1], p[1][2]), R(p[2][1], p[2][2]))
                      [] j \in {10, 11} -> R(ev[j - 9][1], ev[j - 9][2])
                      [] OTHER -> R(p[j][1], p[j][2])]
Ways(simd) == IF simd = 1 THEN 5 ELSE 2
Defined(t, pars, evs) == \A k \in DOMAIN pars : \A e \in DOMAIN evs : Shown(Ev(t, EnvAt(pars, k, evs[e])))
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Cols(_, _, _, _, _)
Cols(t, pars, evs, simd, k) == IF k > Len(pars) THEN <<>> ELSE
   LET col == TLCEval([e \in DOMAIN evs |-> Show(Ev(t, EnvAt(pars, k, evs[e])))]) IN Rep(col, Ways(simd)) \o Cols(t, pars, evs, simd, k + 1)
Outcome(o) == [i \in DOMAIN o.ts |-> Cols(o.ts[i], o.pars, o.evs, o.simd, 1)]
=============================================================================
