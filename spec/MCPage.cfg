SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounds AskedBounds Exact OneEnd

