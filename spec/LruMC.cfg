SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Keys = 4
  Sizes = {0, 1, 2, 3}
  Emit = FALSE
INVARIANTS Bounded LastValue Unique Recent
CHECK_DEADLOCK FALSE
