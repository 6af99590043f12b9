CONSTANTS
  P = 11
  MaxA = 60
  MaxB = 60
INIT Init
NEXT Next
INVARIANTS Exact Digits Rebuilt
