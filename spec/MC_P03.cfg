INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Monotone
CHECK_DEADLOCK FALSE
