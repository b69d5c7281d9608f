SPECIFICATION Spec
CONSTANTS
  Tokens <- TokScheme
  MaxTokens = 5
  Frames <- Bare
INVARIANTS Schemes EmitFrames
CHECK_DEADLOCK FALSE
