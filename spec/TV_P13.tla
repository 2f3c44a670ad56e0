------------------------------- MODULE TV_P13 -------------------------------
EXTENDS PDB, Json, IOUtils
VARIABLES st, i, bad
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Empty, Step <- Do, Trace <- Recorded
Inv == Paired(st)
=============================================================================
