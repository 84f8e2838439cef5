SPECIFICATION MSpec
CONSTANTS
  Pool1 <- HeadPool
  MaxLen = 4
CHECK_DEADLOCK FALSE
INVARIANTS Right Again
PROPERTY Terminates
