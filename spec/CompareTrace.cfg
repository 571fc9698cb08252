SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ExtraAlnum <- DataAlnum
  ExtraNumeric <- DataNumeric
