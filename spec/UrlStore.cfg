SPECIFICATION Spec
CONSTANTS
  Lens = {0, 2, 5}
  Depth = 3
INVARIANTS Objects Separate NoLeak Emit
PROPERTIES InPlace FailedSame Untouched
CHECK_DEADLOCK FALSE
