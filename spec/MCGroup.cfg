SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = {1, 2}
  NParts = 1
  Msgs = 2
  Budget = 2
INVARIANTS Allowed NoSkip
PROPERTY Delivered
