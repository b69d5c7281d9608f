SPECIFICATION Spec
CONSTANTS
  Tokens <- TokEsc
  MaxTokens = 6
  Frames <- Bare
INVARIANTS Decoding EmitFrames
CHECK_DEADLOCK FALSE
