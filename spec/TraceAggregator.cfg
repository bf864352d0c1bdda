SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tick = 100
  Buf <- RealBuf
  OldFactor = 5
  TooLarge = 8192
  MaxSpans = 100000
  BlackMax = 1024
