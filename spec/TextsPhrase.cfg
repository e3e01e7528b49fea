SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- C13P
  N <- C13N
  B <- C13B
  G <- C13G
  KW = 1
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {}
  PubHandles = {}
  Kind = "phrase"
  Longest = 6
INVARIANTS PhraseExact
