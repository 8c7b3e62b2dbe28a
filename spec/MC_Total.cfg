SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  More = 2
  Every = 10
  Full = 3
INVARIANTS Total
CONSTRAINT Export
CHECK_DEADLOCK FALSE
