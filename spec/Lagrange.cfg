SPECIFICATION Spec
CONSTANTS
  Max = 12
INVARIANTS Basis Obtuse Least
PROPERTY Ends
CHECK_DEADLOCK FALSE
