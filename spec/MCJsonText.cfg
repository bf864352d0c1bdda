SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS RoundTrip Layout Trailing Truncated Agree Prefix
