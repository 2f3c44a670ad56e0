INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit

CHECK_DEADLOCK FALSE
