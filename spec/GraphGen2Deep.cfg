CONSTANTS
  N = 3
  R = 1
  K = 4
  Dim = 2
  Loops0 = FALSE
INIT Init
NEXT Next
INVARIANT Emit
