SPECIFICATION Spec
CONSTANTS
  Tokens <- TokUrl
  MaxTokens = 5
  Frames <- Bare
INVARIANTS Components EmitFrames
CHECK_DEADLOCK FALSE
