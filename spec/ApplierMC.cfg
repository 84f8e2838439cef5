SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XY
  MaxT = 3
  MaxH = 2
  Starts1 = {0, 2, 9}
  Counts = {1}
CHECK_DEADLOCK FALSE
INVARIANTS Once Outward Good Bounded
PROPERTY Terminates
