SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Kill = TRUE
  Big = FALSE
INVARIANTS RecordedOkIsTrue SnapshotWhole FailureStays OneEntry ContinueExact StatusTrue FailFast EverythingRuns Order LatestResult
PROPERTIES FailureNotInstalled OnlyAcceptance ResultsKept
