CONSTANTS
  Dim = 2
  R = 1
  Det1 = TRUE
  Shifts = {"0", "-1/2"}
INIT Init
NEXT Next
INVARIANTS Composed Associative Units Differences Inverses Determinants Singular Modulo Coordinates Canonical
