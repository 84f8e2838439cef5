SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XY
  LastLines = {"x"}
  MaxO = 3
  MaxS = 2
CHECK_DEADLOCK FALSE
INVARIANTS NoPanic Good Alike
PROPERTY Terminates
