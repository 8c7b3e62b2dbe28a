SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  More = 0
  Every = 10
  Full = 3
INVARIANTS Total
CHECK_DEADLOCK FALSE
