------------------------------- MODULE MC_P28 -------------------------------
EXTENDS Shape, IOUtils
OpsOf(s) == IF s = 0 THEN {[f |-> "shape", k |-> k] : k \in 1..Len(Shapes)} ELSE {}
StepOf(s, o) == LET x == TLCEval(Shapes[o.k]) IN [s |-> o.k, o |-> <<x.kind, x.name, x.p, x.L, x.opts, x.pars, Points(x.pts), x.t>>]
VARIABLES st, h
INSTANCE Explore WITH Init0 <- 0, Ops <- OpsOf, Step <- StepOf, Depth <- 1
=============================================================================
