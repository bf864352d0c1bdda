SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Targets = 2
  Traces = 3
  Cap = 1
INVARIANTS Accepted Prefix NothingLost
PROPERTIES Ends
