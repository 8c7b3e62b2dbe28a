SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Every = 10
INVARIANTS Agree Spaces
CONSTRAINT Export
CHECK_DEADLOCK FALSE
