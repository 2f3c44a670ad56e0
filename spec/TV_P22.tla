------------------------------- MODULE TV_P22 -------------------------------
EXTENDS Interp, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == TRUE
=============================================================================
