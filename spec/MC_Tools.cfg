SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Pairs = 7
INVARIANTS Again ReadsBack Steps PlainTemplate Export
CHECK_DEADLOCK FALSE
