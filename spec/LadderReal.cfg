SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- SecpP
  N <- SecpN
  B <- SecpB
  G <- SecpG
  KW = 32
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {}
  PubHandles = {}
  Folded = TRUE
  Real = TRUE
INVARIANTS Alive Apart Right
PROPERTIES Ends
