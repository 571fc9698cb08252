SPECIFICATION Spec
CONSTANTS
  Kind = "req"
  MaxRuns = 2
  MaxCalls = 3
  Emit = FALSE
VIEW View
INVARIANTS NeverReal OneAnswer NoSharing Dense Completes Refreshes OnlyCaptured KeepsUsed Replays
CHECK_DEADLOCK FALSE
