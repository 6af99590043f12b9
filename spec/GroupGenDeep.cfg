SPECIFICATION Spec
CONSTANTS
  D = 3
  MaxGens = 2
INVARIANTS NoDup First Inside Closed Bounded
CHECK_DEADLOCK FALSE
