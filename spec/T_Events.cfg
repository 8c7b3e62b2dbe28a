SPECIFICATION TraceSpec
INVARIANT Check
CHECK_DEADLOCK FALSE
