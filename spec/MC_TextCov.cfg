SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 49, 32, 9, 10, 13, 34, 39, 96, 92, 35, 44}
  MaxLen = 9
  MaxInd = 2
VIEW Abs
CONSTRAINT Small
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
