------------------------------- MODULE TV_P08 -------------------------------
EXTENDS Transfer, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == \A k \in DOMAIN st.fns : Len(st.fns[k].ext) = Len(Reads(st.fns[k].f, st.p))
=============================================================================
