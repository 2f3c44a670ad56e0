------------------------------- MODULE TV_P15 -------------------------------
EXTENDS Tens, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Sym0, Step <- Step, Trace <- Recorded
=============================================================================
