SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Parts = 2
  Msgs = 2
  Trouble = 2
INVARIANTS NotStuck Once InOrder OnlyHanded AfterStop
PROPERTIES Delivered Stops
