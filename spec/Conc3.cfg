SPECIFICATION CSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {s, t, u}
  Args = {1, 2}
  Calls = 2
  Shared = FALSE
INVARIANTS Same NoRace
