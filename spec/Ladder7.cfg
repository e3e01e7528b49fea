SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- C7P
  N <- C7N
  B <- C7B
  G <- C7G
  KW = 32
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {}
  PubHandles = {}
  Folded = TRUE
  Real = FALSE
INVARIANTS Alive Apart Right
PROPERTIES Ends
