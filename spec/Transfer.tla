------------------------------ MODULE Transfer ------------------------------
(* Compiled functions and the parameters they use.  p1, p2 are parameters of *)
(* the set, lam is a function, k a parameter marked compile-time constant,   *)
(* and the alias is p1 + p2.  Every compiled function keeps the values of    *)
(* its last transfer (ext) and whether a transfer since the last             *)
(* acknowledgement brought a new value (chg).                                *)
(*   F1 = v p1 + p2          (linked parameters)                             *)
(*   F2 = v alias + 5/2      (alias by name; a loose parameter with default) *)
(*   F3 = lam + alias v      (function; linked alias, generated inline)      *)
(*   F4 = k v + p2           (constant)                                      *)
(* Unless constants are compiled in, k is transferred like any other.        *)
(* Values are eighths of integers.  "frozen" compiles v k with the constant  *)
(* k = n / 2^m built in, "standalone" the function with its parameters.      *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Loose == 20
\* what function f reads from the parameters
Reads(f, p) ==
   CASE f = 1 -> <<p.p1, p.p2>> [] f = 2 -> <<p.p1 + p.p2, Loose>> [] f = 3 -> <<p.lam, p.p1, p.p2>> [] f = 4 -> <<p.k, p.p2>>
Value(f, ext, v) ==
   CASE f = 1 -> v * ext[1] + ext[2] [] f = 2 -> v * ext[1] + ext[2] [] f = 3 -> ext[1] + v * (ext[2] + ext[3]) [] f = 4 -> v * ext[1] + ext[2]
New(f, p) == [f |-> f, ext |-> Reads(f, p), chg |-> \E i \in DOMAIN Reads(f, p) : Reads(f, p)[i] # 0]
Prepare(fn, p) == [fn EXCEPT !.ext = Reads(fn.f, p), !.chg = @ \/ fn.ext # Reads(fn.f, p)]
Start == LET p == [p1 |-> 8, p2 |-> 0, lam |-> 0, k |-> 3] IN [p |-> p, fns |-> [f \in 1..4 |-> New(f, p)]]
Apply(s, o) ==
   CASE o.f = "set" -> [s |-> [s EXCEPT !.p[o.p] = o.v], o |-> <<>>]
     [] o.f = "prepare" -> [s |-> [s EXCEPT !.fns[o.k] = Prepare(@, s.p)], o |-> <<>>]
     [] o.f = "ack" -> [s |-> [s EXCEPT !.fns[o.k].chg = FALSE], o |-> <<>>]
     [] o.f = "changed" -> [s |-> s, o |-> <<IF s.fns[o.k].chg THEN 1 ELSE 0>>]
     [] o.f = "eval" -> [s |-> s, o |-> [i \in DOMAIN o.vs |-> Value(s.fns[o.k].f, s.fns[o.k].ext, o.vs[i])]]
     [] o.f = "copy" -> [s |-> [s EXCEPT !.fns = Append(@, s.fns[o.k])], o |-> <<>>]
     [] o.f = "assign" -> [s |-> [s EXCEPT !.fns[o.k] = s.fns[o.j]], o |-> <<>>]
     [] o.f \in {"frozen", "standalone"} -> [s |-> s, o |-> [i \in DOMAIN o.vs |-> o.vs[i] * o.n]]     \* in units of 2^-m
=============================================================================
