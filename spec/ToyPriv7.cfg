SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P <- C7P
  N <- C7N
  B <- C7B
  G <- C7G
  KW = 1
  CK = 1
  CR = 8
  WB = 3
  EntropySizes = {1, 2}
  Iterations = 1
  Handles = {a, b}
  PubHandles = {}
INVARIANTS KeysValid RoundTrip Bindings NoMixing Commutes Homomorphism Injective Arithmetic
PROPERTIES OneKey
