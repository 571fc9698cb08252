SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = FALSE
INVARIANTS Highest Alone Done
CHECK_DEADLOCK FALSE
