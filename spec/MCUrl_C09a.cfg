SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsBad
  MaxLen = 9
INVARIANTS RefusedUnchanged Reparses EmitEdges
CHECK_DEADLOCK FALSE
