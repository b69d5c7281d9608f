SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsAll
  MaxLen = 8
INVARIANTS FrameHolds SetReadsBack EmitEdges
CHECK_DEADLOCK FALSE
