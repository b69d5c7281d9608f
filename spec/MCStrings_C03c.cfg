SPECIFICATION Spec
CONSTANTS
  Tokens <- TokVF
  MaxTokens = 4
  Frames <- FrameVF
INVARIANTS HostKinds EmitFrames
CHECK_DEADLOCK FALSE
