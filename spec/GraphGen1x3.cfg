CONSTANTS
  N = 1
  R = 1
  K = 4
  Dim = 3
  Loops0 = FALSE
INIT Init
NEXT Next
INVARIANT Emit
