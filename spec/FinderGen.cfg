SPECIFICATION Spec
CONSTANTS
  B = 1
  Three = FALSE
INVARIANTS Closed Freedom Crystallographic Emit
CHECK_DEADLOCK FALSE
