SPECIFICATION Spec
CONSTANTS
  Tokens <- TokHost4
  MaxTokens = 5
  Frames <- FrameV4
INVARIANTS HostKinds EmitFrames
CHECK_DEADLOCK FALSE
