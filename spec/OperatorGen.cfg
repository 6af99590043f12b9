SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {"x","y","z","+","-","2","0","/","*",",","_","?"}
INVARIANTS Small NotDead Emit
CHECK_DEADLOCK FALSE
