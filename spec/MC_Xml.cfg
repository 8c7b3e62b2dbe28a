SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Every = 20
INVARIANTS Agree IsOne Cut
PROPERTIES Grows
CONSTRAINT Export
CHECK_DEADLOCK FALSE
