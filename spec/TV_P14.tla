------------------------------- MODULE TV_P14 -------------------------------
EXTENDS AngMom, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- 0, Step <- Do, Trace <- Recorded
=============================================================================
