SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Spans = 8
  Cap = 2
INVARIANT Failed
PROPERTIES AllTaken Delivered
