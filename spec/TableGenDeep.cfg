SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  Kinds = {"canon", "other", "shifted", "op", "alias", "lookup", "hexa", "blank", "badop", "flat", "short", "badsys", "badcen"}
INVARIANTS WholeText Counted Refused Owned Emit
CHECK_DEADLOCK FALSE
