SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XYZ
  MaxLen = 4
  CtxSet = {0, 1, 2}
CHECK_DEADLOCK FALSE
INVARIANTS InBounds Covers Least Good
PROPERTY Terminates
