SPECIFICATION Spec
CONSTANTS
  Workers = {"w1", "w2"}
  N = 3
  Parallel = FALSE
INVARIANTS TestsBracketed NotNested Closed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
