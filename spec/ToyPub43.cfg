SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- C43P
  N <- C43N
  B <- C43B
  G <- C43G
  KW = 1
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {}
  PubHandles = {u, v}
INVARIANTS PointsValid PubCommutes PubRoundTrip AddressesBind AddressesDiffer Associates NoMixing
PROPERTIES OneKey
