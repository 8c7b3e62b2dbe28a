SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  MaxCrashes = 1
INVARIANTS Acknowledged Present Partial Order
CHECK_DEADLOCK FALSE
