SPECIFICATION SpecTree
CONSTANTS
  MaxNodes = 3
  MaxLevel = 2
  MaxLen = 0
INVARIANTS RoundTrip CutsIncomplete Followed
CHECK_DEADLOCK FALSE
