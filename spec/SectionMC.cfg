SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ExtraAlnum <- MCAlnum
  ExtraNumeric <- MCNumeric
  K = 2
  Kinds = {"h1", "h2", "line", "key"}
  Emit = FALSE
INVARIANTS SectionsFollow ChangesShow
