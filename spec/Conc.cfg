SPECIFICATION CSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {s, t}
  Args = {1, 2, 3}
  Calls = 2
  Shared = FALSE
INVARIANTS Same NoRace
PROPERTIES Finish
