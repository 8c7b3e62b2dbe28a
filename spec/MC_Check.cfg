SPECIFICATION Spec
CONSTANTS
  MaxS = 2
  MaxT = 2
  Every = 1
INVARIANTS Reflexive Widens Message_
CONSTRAINT Export
CHECK_DEADLOCK FALSE
