SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Rest = 4
  Every = 5
INVARIANTS AsAdded Nested Members LevelOk
PROPERTY Settled
CONSTRAINT Export
CHECK_DEADLOCK FALSE
