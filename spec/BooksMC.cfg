SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = FALSE
INVARIANTS NothingLeft Done
PROPERTIES Survive OnlyGarbageGoes AttachmentsStay
CHECK_DEADLOCK FALSE
