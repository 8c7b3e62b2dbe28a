SPECIFICATION Spec
CONSTANTS
  Procs = 2
  Mode = "own"
INVARIANTS SameAsAlone ProgramsStay Growing
CONSTRAINT Export
CHECK_DEADLOCK FALSE
