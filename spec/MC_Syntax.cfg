SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Every = 6
INVARIANTS ReadOk BlanksOk ParenOk
CONSTRAINT Export
CHECK_DEADLOCK FALSE
