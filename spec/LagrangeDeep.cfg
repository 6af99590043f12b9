SPECIFICATION Spec
CONSTANTS
  Max = 60
INVARIANTS Basis Obtuse Least
PROPERTY Ends
CHECK_DEADLOCK FALSE
