SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsBuild
  MaxLen = 99
INVARIANTS BuildsUp Commutes EmitEdges
CHECK_DEADLOCK FALSE
