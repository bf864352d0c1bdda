SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tick = 2000
  MinAge = 1800
  Enough = 1000
  QueueMax = 8
