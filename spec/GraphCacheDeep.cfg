CONSTANTS
  Len0 = 3
  Vtx = {1, 2}
INIT Init
NEXT Next
INVARIANTS Independent AllOrNothing Ordered Emit
