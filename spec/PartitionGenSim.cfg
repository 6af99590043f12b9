CONSTANTS N = 9
          K = 24
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
