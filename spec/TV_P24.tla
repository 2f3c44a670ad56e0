------------------------------- MODULE TV_P24 -------------------------------
EXTENDS Spin, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Spin0, Step <- Step, Trace <- Recorded
=============================================================================
