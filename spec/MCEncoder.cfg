SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Workers = 2
  Msgs = 5
  Piece = 7
  Limit = 2
  Longest = 3
  Pieces = 3
INVARIANT Unchanged
