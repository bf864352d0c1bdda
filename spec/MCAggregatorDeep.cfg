SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  TraceIds = {1, 2}
  SpanIds = {1, 2, 3}
  Rooms = {0}
  Tick = 2
  Buf <- LargeBuf
  OldFactor = 2
  TooLarge = 2
  MaxSpans = 3
  BlackMax = 2
INVARIANTS Disjoint BlockBound Prompt PendOk BoxOk
PROPERTIES Accounting Blocked NotEarly Shedding
