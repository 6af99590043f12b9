CONSTANTS
  Len0 = 14
  Vtx = {1, 2}
INIT Init
NEXT Next
INVARIANTS Independent AllOrNothing Ordered Emit
