------------------------------- MODULE TV_P20 -------------------------------
EXTENDS Text, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
StepOf(s, o) == [s |-> s, o |-> Do(o)]
INSTANCE Conform WITH Init0 <- [x |-> 0], Step <- StepOf, Trace <- Recorded
Inv == st.x = 0
=============================================================================
