SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XY
  MaxT = 3
  MaxH = 1
  Starts1 = {0, 2, 3}
  Counts = {2}
CHECK_DEADLOCK FALSE
INVARIANTS Once Outward Good Bounded
PROPERTY Terminates
