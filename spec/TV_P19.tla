------------------------------ MODULE TV_P19 ------------------------------
EXTENDS Pool, Json, IOUtils
VARIABLES st, i, bad
Tr == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Conform WITH Init0 <- Pool0, Trace <- Tr
Inv == Inv0(st) \/ bad
=============================================================================
