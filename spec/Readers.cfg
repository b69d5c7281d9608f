SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Cells = 2
  Private = TRUE
  Rounds = 2
INVARIANTS AsAlone NoRace
CHECK_DEADLOCK FALSE
