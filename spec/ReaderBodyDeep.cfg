SPECIFICATION MSpec
CONSTANTS
  Pool1 <- BodyPool
  MaxLen = 6
CHECK_DEADLOCK FALSE
INVARIANTS Right Again
PROPERTY Terminates
