SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  NCalls = 2
  Closes = TRUE
  Whole = TRUE
INVARIANTS Seen Bounded
CHECK_DEADLOCK FALSE
