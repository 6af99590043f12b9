CONSTANTS
  N = 3
  R = 1
  K = 3
  Dim = 2
  Loops0 = TRUE
  Terms = 3
INIT Init
NEXT Next
INVARIANTS ShellIs SeqIs
