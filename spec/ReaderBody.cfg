SPECIFICATION MSpec
CONSTANTS
  Pool1 <- BodyPool
  MaxLen = 5
CHECK_DEADLOCK FALSE
INVARIANTS Right Again
PROPERTY Terminates
