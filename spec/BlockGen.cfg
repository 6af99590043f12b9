SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  Kinds = {"begin", "other", "data", "end", "endx", "blank", "unread", "cut", "bad", "quoted"}
INVARIANTS EachLineOnce Same Shape Keywords Notes Emit
CHECK_DEADLOCK FALSE
