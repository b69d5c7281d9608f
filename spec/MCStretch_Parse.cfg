SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaParse
  Prefix <- Nothing
  Calls <- NoCalls
  Factors = {2, 3}
  MaxTokens = 4
INVARIANTS ParseCommutes
CHECK_DEADLOCK FALSE
