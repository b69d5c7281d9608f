SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaList
  Prefix <- Site
  Calls <- NoCalls
  Factors = {2, 3}
  MaxTokens = 5
INVARIANTS ParseCommutes
CHECK_DEADLOCK FALSE
