SPECIFICATION Spec
CONSTANTS
  Tokens <- TokPath
  MaxTokens = 6
  Frames <- Bare
INVARIANTS Segments EmitFrames
CHECK_DEADLOCK FALSE
