SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- C31P
  N <- C31N
  B <- C31B
  G <- C31G
  KW = 1
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {}
  PubHandles = {}
  Kind = "hex"
  Longest = 4
INVARIANTS HexExact
