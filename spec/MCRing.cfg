SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Cap = 3
  MaxSpans = 9
  MaxTrace = 5
PROPERTIES Exact Forward
