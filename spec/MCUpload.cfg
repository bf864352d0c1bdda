SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Uploads <- MCUploads
  Spans = 2
  Capacity = 1
INVARIANTS Whole InOrder
PROPERTIES Answered Processed
