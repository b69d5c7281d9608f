SPECIFICATION Spec
CONSTANTS
  Tokens <- TokBytes
  MaxTokens = 2
  Frames <- Bare
INVARIANTS Codec EmitFrames
CHECK_DEADLOCK FALSE
