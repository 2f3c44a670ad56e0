------------------------------- MODULE TV_P18 -------------------------------
EXTENDS Pdf, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == \A k \in Ks : st[k].st \in {"L", "C", "no"}
=============================================================================
