SPECIFICATION Spec
CONSTANTS
  Max = 4
  N = 3
INVARIANTS IsSuper Basis Obtuse Minima
PROPERTY Falls
CHECK_DEADLOCK FALSE
