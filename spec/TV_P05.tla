------------------------------- MODULE TV_P05 -------------------------------
EXTENDS ExprText, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
Ctx == [names |-> <<"a", "b", "z_Re", "z_Im", "par::x">>, polar |-> FALSE, deg |-> FALSE]
V1 == <<<<2, 1>>, <<3, 1>>, <<1, 1>>, <<-2, 1>>, <<1, 2>>>>
StepOf(s, o) == LET n == Do(s, o, Ctx) IN [s |-> n, o |-> IF Defined(n) THEN <<[k \in DOMAIN n.held |-> Show(Vals(n)[k])]>>[1] ELSE "?"]
INSTANCE Conform WITH Init0 <- Start(V1), Step <- StepOf, Trace <- Recorded
Inv == TRUE
=============================================================================
