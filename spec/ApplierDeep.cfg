SPECIFICATION MSpec
CONSTANTS
  Lines1 <- XYE
  MaxT = 4
  MaxH = 2
  Starts1 = {0, 1, 2, 4, 9}
  Counts = {0, 1}
CHECK_DEADLOCK FALSE
INVARIANTS Once Outward Good Bounded
PROPERTY Terminates
