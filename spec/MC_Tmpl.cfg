SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Every = 3
INVARIANTS NestOk CutOk PlainOk LoopVar
CONSTRAINT Export
CHECK_DEADLOCK FALSE
