SPECIFICATION Spec
CONSTANT
  MaxOps = 2
  Full = TRUE
INVARIANT CloneOk
INVARIANT EqualsOk
INVARIANT NoCycle
PROPERTY Frame
CHECK_DEADLOCK FALSE
