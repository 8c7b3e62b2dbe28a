SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS Kept Ends
CONSTRAINT Export
CHECK_DEADLOCK FALSE
