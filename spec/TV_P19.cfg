INIT Init
NEXT Next
POSTCONDITION Accepted
INVARIANT Inv
CHECK_DEADLOCK FALSE
