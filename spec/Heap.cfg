SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {a, b, c}
  M = 5
  Sharing = FALSE
INVARIANTS Refines Separate
