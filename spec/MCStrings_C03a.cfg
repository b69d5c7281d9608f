SPECIFICATION Spec
CONSTANTS
  Tokens <- TokHost6
  MaxTokens = 5
  Frames <- FrameBr
INVARIANTS HostKinds EmitFrames
CHECK_DEADLOCK FALSE
