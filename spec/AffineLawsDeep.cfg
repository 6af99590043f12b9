CONSTANTS
  Dim = 2
  R = 1
  Det1 = FALSE
  Shifts = {"0", "-1/2"}
INIT Init
NEXT Next
INVARIANTS Composed Associative Units Differences Inverses Determinants Singular Modulo Coordinates Canonical
