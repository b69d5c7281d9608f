SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsNorm
  MaxLen = 30
INVARIANTS NormLaws FrameHolds EmitEdges
CHECK_DEADLOCK FALSE
