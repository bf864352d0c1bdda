SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  TraceIds = {1, 2}
  SpanIds = {1, 2}
  Rooms = {1, 2}
  Tick = 2
  Buf <- SmallBuf
  OldFactor = 2
  TooLarge = 1
  MaxSpans = 1
  BlackMax = 2
INVARIANTS Disjoint BlockBound Prompt PendOk BoxOk
PROPERTIES Accounting Blocked NotEarly Shedding
