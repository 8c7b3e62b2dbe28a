SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  MaxLevel = 2
INVARIANTS RoundTrip Stable Export
CHECK_DEADLOCK FALSE
