SPECIFICATION Spec
CONSTANTS
  MaxArgs = 2
  Every = 40
INVARIANTS CallsRight Anywhere
CONSTRAINT Export
CHECK_DEADLOCK FALSE
