------------------------------- MODULE TV_P31 -------------------------------
EXTENDS Quad, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Start, Step <- Do, Trace <- Recorded
=============================================================================
