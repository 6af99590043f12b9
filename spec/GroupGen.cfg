SPECIFICATION Spec
CONSTANTS
  D = 2
  MaxGens = 2
INVARIANTS NoDup First Inside Closed Bounded
CHECK_DEADLOCK FALSE
