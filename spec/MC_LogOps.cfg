SPECIFICATION Spec
CONSTANT
  MaxOps = 4
INVARIANT Export
CHECK_DEADLOCK FALSE
