SPECIFICATION Spec
CONSTANTS
  B = 8
  MaxEmpty = 1
  Text <- Text4
VIEW View
INVARIANTS Correct Inside Window
CHECK_DEADLOCK FALSE
