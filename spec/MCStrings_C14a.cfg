SPECIFICATION Spec
CONSTANTS
  Tokens <- TokQuery
  MaxTokens = 5
  Frames <- Bare
INVARIANTS Parameters EmitFrames
CHECK_DEADLOCK FALSE
