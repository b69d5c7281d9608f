SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsPlain
  MaxLen = 6
INVARIANTS PlainReadsBack Reparses EmitEdges
CHECK_DEADLOCK FALSE
