CONSTANTS
  Exps = {0, 1, 2, 3, 970, 1022, 1023, 1024, 1074, 1075, 1076, 2045, 2046}
  Eighths = 8
  
INIT Init
NEXT Next
INVARIANTS OneChosen Near Ends Mirror Crossed
