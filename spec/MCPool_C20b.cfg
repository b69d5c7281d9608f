SPECIFICATION Spec
CONSTANTS
  Bases <- HighBases
  Sizes = {0, 1, 7, 16, 20}
  Types <- AllTypes
  Counts = {0, 1, 2, 5, 64, 65, 128, 255}
  Word = 256
  Depth = 2
INVARIANTS Placed Apart Exact Exhausts
CHECK_DEADLOCK FALSE
