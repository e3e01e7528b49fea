SPECIFICATION RSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 4
  Width = 3
  Limit = 61
  Target = 60
INVARIANTS Never
