SPECIFICATION Spec
CONSTANTS
  Tokens <- TokQuery
  MaxTokens = 5
  Frames <- Bare
INVARIANTS Lookups EmitFrames
CHECK_DEADLOCK FALSE
