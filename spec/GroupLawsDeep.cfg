SPECIFICATION Spec
CONSTANTS
  Dims = {1,2,3}
INVARIANTS Forms Fixed Roundtrip
CHECK_DEADLOCK FALSE
