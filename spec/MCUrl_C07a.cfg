SPECIFICATION Spec
CONSTANTS
  Starts <- StartsShapes
  Calls <- CallsClear
  MaxLen = 99
INVARIANTS ClearHolds Reparses EmitEdges
CHECK_DEADLOCK FALSE
