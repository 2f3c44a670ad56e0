------------------------------- MODULE TV_P12 -------------------------------
EXTENDS Rules
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- 0, Step <- Do3, Trace <- Recorded
=============================================================================
