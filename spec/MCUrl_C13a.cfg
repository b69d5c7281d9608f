SPECIFICATION Spec
CONSTANTS
  Starts <- StartsSeg
  Calls <- CallsSeg
  MaxLen = 7
INVARIANTS SegLaws FrameHolds Reparses EmitEdges
CHECK_DEADLOCK FALSE
