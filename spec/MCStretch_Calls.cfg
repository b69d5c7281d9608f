SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaCalls
  Prefix <- Nothing
  Calls <- AllCalls
  Factors = {2, 3}
  MaxTokens = 3
INVARIANTS CallsCommute
CHECK_DEADLOCK FALSE
