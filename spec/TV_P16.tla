------------------------------- MODULE TV_P16 -------------------------------
EXTENDS Lorentz, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Zero, Step <- Do, Trace <- Recorded
=============================================================================
