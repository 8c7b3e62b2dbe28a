SPECIFICATION Spec
CONSTANTS
  Flat = 100000
  Deep = 20000
  Every = 20
CONSTRAINT Export
CHECK_DEADLOCK FALSE
