CONSTANT N = 7
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
