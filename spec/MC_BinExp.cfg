SPECIFICATION SpecTree
CONSTANTS
  MaxNodes = 2
  MaxLevel = 2
  MaxLen = 0
INVARIANTS RoundTrip CutsIncomplete Followed ExportTree
CHECK_DEADLOCK FALSE
