SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  Kinds = {"begin", "other", "data", "end", "endx", "blank", "unread", "cut", "bad", "quoted", "comment", "endcut"}
INVARIANTS EachLineOnce Same Shape Keywords Notes Emit
CHECK_DEADLOCK FALSE
