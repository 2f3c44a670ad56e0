------------------------------- MODULE TV_P04 -------------------------------
EXTENDS ParamFile, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
StepOf(s, o) == LET n == DoP(s, o) IN [s |-> n, o |-> IF DefinedP(n) THEN ObserveP(n) ELSE "?"]
INSTANCE Conform WITH Init0 <- <<>>, Step <- StepOf, Trace <- Recorded
Inv == UniqueP(st)
=============================================================================
