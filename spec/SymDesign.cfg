CONSTANTS
  N = 2
  R = 1
  K = 3
  Dim = 2
  AllBases = FALSE
SPECIFICATION Spec
INVARIANTS Exact Translated Minimal
