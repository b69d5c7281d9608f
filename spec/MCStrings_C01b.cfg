SPECIFICATION Spec
CONSTANTS
  Tokens <- TokHost6
  MaxTokens = 5
  Frames <- FrameBrUrl
INVARIANTS Language EmitFrames
CHECK_DEADLOCK FALSE
