CONSTANTS
  Max = 2
  K = 4
  Far = 9
SPECIFICATION Spec
INVARIANTS Nearest
PROPERTIES Ends Falls
