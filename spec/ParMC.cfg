CONSTANTS
  Cases = {1, 2, 3}
  Res = {1, 2}
  Procs = {1, 2, 3}
  WithRes = TRUE
  Emit = FALSE
  Aborts = TRUE
SPECIFICATION Fair
INVARIANTS DepsFirst Once Exclusive Bounded
PROPERTIES AllRun Ends
CHECK_DEADLOCK FALSE
