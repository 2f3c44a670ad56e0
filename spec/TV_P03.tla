------------------------------- MODULE TV_P03 -------------------------------
EXTENDS Options, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
Pool == <<"a", "b0", "help", "D0{K-,pi+}", "{x}">>
StepOf(s, o) == LET r == Do(s, o) IN [s |-> r.s, o |-> Observe(r.s, r.r, Pool)]
INSTANCE Conform WITH Init0 <- NoOpts, Step <- StepOf, Trace <- Recorded
Inv == TableOK(st)
=============================================================================
