SPECIFICATION Spec
CONSTANTS
  Starts <- StartsShapes
  Calls <- CallsAmb
  MaxLen = 8
INVARIANTS RefusedExactly AmbExact RefusedUnchanged EmitEdges
CHECK_DEADLOCK FALSE
