CONSTANTS
  N = 2
  R = 1
  K = 3
  Dim = 2
  Loops0 = TRUE
INIT Init
NEXT Next
INVARIANT Emit
