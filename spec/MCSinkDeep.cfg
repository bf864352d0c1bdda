SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tick = 4
  MinAge = 3
  Enough = 3
  QueueMax = 2
  Traces = {1, 2}
  MaxSize = 2
  MaxSpans = 7
  MaxTime = 15
INVARIANTS Conserved NonEmpty InOrder RunsInOrder Bounded Prompt NeverIdle
PROPERTIES OnlyWhenFull
