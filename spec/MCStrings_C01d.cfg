SPECIFICATION Spec
CONSTANTS
  Tokens <- TokVF
  MaxTokens = 4
  Frames <- FrameVFUrl
INVARIANTS Language EmitFrames
CHECK_DEADLOCK FALSE
