SPECIFICATION Spec
CONSTANTS
  Procs = 2
  Mode = "one"
INVARIANTS SameAsAlone
CHECK_DEADLOCK FALSE
