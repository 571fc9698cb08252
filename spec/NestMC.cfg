SPECIFICATION Spec
CONSTANTS
  Depth = 1
  MaxBody = 2
INVARIANTS Undone
CHECK_DEADLOCK FALSE
