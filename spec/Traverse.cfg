CONSTANTS
  N = 2
  R = 1
  K = 3
  Dim = 2
  Moduli = {2, 3, 4}
SPECIFICATION Spec
INVARIANTS Complete SameNet Lattice Measures Whole
PROPERTY Kept
