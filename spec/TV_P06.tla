------------------------------- MODULE TV_P06 -------------------------------
EXTENDS Expr, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
StepOf(s, o) == IF \A k \in DOMAIN o.envs : Shown(Ev(o.t, EnvOf(o.envs[k])))
                THEN LET v == [k \in DOMAIN o.envs |-> Show(Ev(o.t, EnvOf(o.envs[k])))] IN [s |-> s, o |-> <<v, v, v, v>>]
                ELSE [s |-> s, o |-> "?"]
INSTANCE Conform WITH Init0 <- [x |-> 0], Step <- StepOf, Trace <- Recorded
Inv == st.x = 0
=============================================================================
