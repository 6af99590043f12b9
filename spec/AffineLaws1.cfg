CONSTANTS
  Dim = 1
  R = 4
  Det1 = FALSE
  Shifts = {"0", "-1/2", "5/3", "7"}
INIT Init
NEXT Next
INVARIANTS Composed Associative Units Differences Inverses Determinants Singular Modulo Coordinates Canonical
