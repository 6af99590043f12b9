CONSTANTS
  N = 2
  R = 1
  K = 4
  Dim = 2
  AllBases = FALSE
SPECIFICATION Spec
INVARIANTS Exact Translated Minimal
