SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 32, 10, 34, 92, 35, 44, 9}
  MaxLen = 5
  MaxInd = 9
INVARIANTS Orphans Stack Plain Ends Placed Neutral
PROPERTY Grow
CHECK_DEADLOCK FALSE
