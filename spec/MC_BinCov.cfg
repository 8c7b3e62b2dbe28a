SPECIFICATION SpecDec
CONSTANTS
  MaxNodes = 0
  MaxLevel = 0
  MaxLen = 12
VIEW Abs
CONSTRAINT Bound
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
