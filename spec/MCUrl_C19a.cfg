SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsFew
  MaxLen = 9
INVARIANTS Reparses Observed EmitEdges
CHECK_DEADLOCK FALSE
