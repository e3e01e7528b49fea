SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- SecpP
  N <- SecpN
  B <- SecpB
  G <- SecpG
  KW = 32
  CK = 4
  CR = 32
  WB = 11
  EntropySizes <- SecpEntropySizes
  Iterations = 2048
