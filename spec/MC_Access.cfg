SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
INVARIANTS Agree Settled ByText
CONSTRAINT Export
CHECK_DEADLOCK FALSE
