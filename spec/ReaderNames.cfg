SPECIFICATION MSpec
CONSTANTS
  Pool1 <- NamePool
  MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS Right Again
PROPERTY Terminates
