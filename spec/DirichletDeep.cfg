CONSTANTS
  Max = 4
  K = 6
  Far = 13
SPECIFICATION Spec
INVARIANTS Nearest
PROPERTIES Ends Falls
