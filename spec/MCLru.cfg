SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Len8 <- Lengths
  Keys = 5
  Over = 2
  Limit = 14
INVARIANTS SameOrder Content Bounded
