INIT Init
NEXT Next
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
