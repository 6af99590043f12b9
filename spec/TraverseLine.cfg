CONSTANTS
  N = 3
  R = 1
  K = 4
  Dim = 1
  Moduli = {2, 3, 4}
SPECIFICATION Spec
INVARIANTS Complete SameNet Lattice Measures Whole
PROPERTY Kept
