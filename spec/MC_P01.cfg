INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
PROPERTY OrderStable
PROPERTY LeaveOnlyByUnregister
