SPECIFICATION Spec
CONSTANTS
  Tokens <- TokHost4
  MaxTokens = 5
  Frames <- FrameV4Url
INVARIANTS Language EmitFrames
CHECK_DEADLOCK FALSE
