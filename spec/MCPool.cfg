SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Workers = 2
  Requests = 2
  MaxSpans = 1
  MaxAnns = 2
  Slices = 2
INVARIANTS Own Apart
