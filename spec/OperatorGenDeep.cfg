SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {"x","y","z","+","-","2","0","/","*",",","_","?"}
INVARIANTS Small NotDead Emit
CHECK_DEADLOCK FALSE
