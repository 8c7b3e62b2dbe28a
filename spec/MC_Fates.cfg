SPECIFICATION Spec
CONSTANTS
  NCalls = 2
  Every = 20
  Version = 2
  Kinds = {"ok", "okcut", "creq", "drop", "cans", "lose", "late", "lreq"}
INVARIANTS Agree
CONSTRAINT Export
CHECK_DEADLOCK FALSE
