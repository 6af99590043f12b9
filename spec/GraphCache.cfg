CONSTANTS
  Len0 = 2
  Vtx = {1, 2}
INIT Init
NEXT Next
INVARIANTS Independent AllOrNothing Ordered Emit
