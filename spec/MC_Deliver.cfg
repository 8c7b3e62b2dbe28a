SPECIFICATION Spec
CONSTANT
  MaxChunk = 3
INVARIANT Export
CHECK_DEADLOCK FALSE
