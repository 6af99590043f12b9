SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 49, 48, 46, 47, 34, 35, 32, 101, 45, 43}
INVARIANTS Covered Separate KeyFirst NoHash Comment Emit
CHECK_DEADLOCK FALSE
