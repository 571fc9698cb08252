CONSTANTS
  Cases = {1, 2, 3}
  Res = {1}
  Procs = {1, 2, 3}
  WithRes = TRUE
  Emit = TRUE
  Aborts = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
