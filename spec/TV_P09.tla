------------------------------- MODULE TV_P09 -------------------------------
EXTENDS Decay
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- 0, Step <- Do2, Trace <- Recorded
=============================================================================
