SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  NCalls = 2
  Closes = TRUE
  Whole = TRUE
INVARIANTS Seen Bounded
PROPERTIES Returns
CHECK_DEADLOCK FALSE
