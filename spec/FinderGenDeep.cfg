SPECIFICATION Spec
CONSTANTS
  B = 3
  Three = TRUE
INVARIANTS Closed Freedom Crystallographic Emit
CHECK_DEADLOCK FALSE
