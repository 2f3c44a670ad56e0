------------------------------- MODULE TV_P23 -------------------------------
EXTENDS Gen, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == Len(st.l) <= st.at
=============================================================================
