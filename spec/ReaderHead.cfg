SPECIFICATION MSpec
CONSTANTS
  Pool1 <- HeadPool
  MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS Right Again
PROPERTY Terminates
