SPECIFICATION Spec
CONSTANTS
  Texts <- AllTexts
  Depth = 5
INVARIANTS NoDangling Emit
PROPERTIES UrlOwns ViewShows
CHECK_DEADLOCK FALSE
