SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  Cases = {"a", "b"}
  MaxEvents = 6
INVARIANTS Restored Logs Own
CHECK_DEADLOCK FALSE
