SPECIFICATION SimSpec
CONSTANTS
  Starts <- StartsAll
  Calls <- CallsAll
  MaxLen = 60
CHECK_DEADLOCK FALSE
