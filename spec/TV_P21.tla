------------------------------- MODULE TV_P21 -------------------------------
EXTENDS Simd, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Apply, Trace <- Recorded
Inv == TRUE
=============================================================================
