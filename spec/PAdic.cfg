CONSTANTS
  P = 7
  MaxA = 20
  MaxB = 20
INIT Init
NEXT Next
INVARIANTS Exact Digits Rebuilt
