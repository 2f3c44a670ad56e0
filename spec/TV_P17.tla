------------------------------- MODULE TV_P17 -------------------------------
EXTENDS Events, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == \A l \in {"A", "B", "S"} : \A k \in DOMAIN st[l] : Len(st[l][k].d) = 4 * NP
=============================================================================
