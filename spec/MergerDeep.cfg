SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XY
  LastLines = {"x"}
  MaxO = 4
  MaxS = 3
CHECK_DEADLOCK FALSE
INVARIANTS NoPanic Good Alike
PROPERTY Terminates
