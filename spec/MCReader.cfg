SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Sizes = {0, 1, 2}
  MaxDepth = 2
  MaxEmpty = 1
INVARIANTS Window InPlace Prefix Right Bounded
PROPERTY Ends
