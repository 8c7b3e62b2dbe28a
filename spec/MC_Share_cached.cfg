SPECIFICATION Spec
CONSTANTS
  Procs = 2
  Mode = "cached"
INVARIANTS SameAsAlone
CHECK_DEADLOCK FALSE
