SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  Kinds = {"canon", "other", "shifted", "op", "alias", "lookup", "hexa", "blank", "comment", "badop", "flat", "short"}
INVARIANTS WholeText Counted Refused Owned Emit
CHECK_DEADLOCK FALSE
