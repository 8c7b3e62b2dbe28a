SPECIFICATION Spec
CONSTANTS
  Procs = 3
  Mode = "readers"
INVARIANTS SameAsAlone ProgramsStay Growing
CHECK_DEADLOCK FALSE
