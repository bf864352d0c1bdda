SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Requests = {1, 2}
 Capacity = 1
INVARIANTS AsSaid UserFirst OnlyUploads Once
PROPERTY Answered
