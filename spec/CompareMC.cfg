SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ExtraAlnum <- MCAlnum
  ExtraNumeric <- MCNumeric
  N = 2
  Emit = FALSE
  Sections = FALSE
INVARIANTS UnchangedPasses ChangedDiffers FailureFails ManualDiff Faithful
