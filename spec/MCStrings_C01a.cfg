SPECIFICATION Spec
CONSTANTS
  Tokens <- TokDelims
  MaxTokens = 4
  Frames <- Bare
INVARIANTS Language EmitFrames
CHECK_DEADLOCK FALSE
