SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsAll
  MaxLen = 8
INVARIANTS Reparses Observed RefusedUnchanged EmitEdges
CHECK_DEADLOCK FALSE
