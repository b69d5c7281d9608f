SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsFew
  MaxLen = 8
INVARIANTS Reparses EmitEdges
CHECK_DEADLOCK FALSE
