------------------------------- MODULE TV_P01 -------------------------------
EXTENDS Params, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
Names == <<"a", "b", "c_Re", "d::x", "e e">>
StepOf(s, o) == LET r == Do(s, o) IN [s |-> r.s, o |-> Observe(r.s, r.r, Names)]
INSTANCE Conform WITH Init0 <- Empty, Step <- StepOf, Trace <- Recorded
Inv == StoreOK(st)
=============================================================================
