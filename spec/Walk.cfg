SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
INVARIANTS KeysValid RoundTrip Binding NoMixing Commutes PointsValid Homomorphism PubCommutes PubRoundTrip AddressesBind
CONSTANTS
  P <- SecpP
  N <- SecpN
  B <- SecpB
  G <- SecpG
  KW = 32
  CK = 4
  CR = 32
  WB = 11
  EntropySizes <- SecpEntropySizes
  Iterations = 2048
  Depth = 60
