SPECIFICATION Spec
CONSTANT
  MaxOps = 2
  Full = TRUE
INVARIANT Export
CHECK_DEADLOCK FALSE
