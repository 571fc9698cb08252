SPECIFICATION Spec
CONSTANTS
  Kind = "req"
  MaxRuns = 2
  MaxCalls = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
