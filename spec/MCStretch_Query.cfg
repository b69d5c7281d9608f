SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaQuery
  Prefix <- Nothing
  Calls <- NoCalls
  Factors = {2, 3}
  MaxTokens = 5
INVARIANTS ParseCommutes LookupsCommute
CHECK_DEADLOCK FALSE
