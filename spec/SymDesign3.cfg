CONSTANTS
  N = 1
  R = 1
  K = 3
  Dim = 3
  AllBases = FALSE
SPECIFICATION Spec
INVARIANTS Exact Translated Minimal
