SPECIFICATION Spec
CONSTANTS
  MaxSets = 2
  Every = 4
INVARIANTS TypeOk GetSet GetPure
PROPERTY Frame
CONSTRAINT Export
CHECK_DEADLOCK FALSE
