CONSTANTS
  N = 2
  R = 1
  K = 2
  Dim = 3
  Loops0 = FALSE
INIT Init
NEXT Next
INVARIANT Emit
