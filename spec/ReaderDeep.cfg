SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 10, 13, 34}
  Chunks = {1, 2, 3, 4}
  MaxTimes = 2
INVARIANTS Right NoneLost Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
