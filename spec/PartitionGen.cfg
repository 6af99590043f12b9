CONSTANTS N = 4
          K = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
