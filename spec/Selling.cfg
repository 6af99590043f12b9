SPECIFICATION Spec
CONSTANTS
  Max = 2
  N = 3
INVARIANTS IsSuper Basis Obtuse Minima
PROPERTY Falls
CHECK_DEADLOCK FALSE
