SPECIFICATION MSpec
CONSTANTS
  Prop = "ALL"
  Lines2 <- LSet
  MaxBody = 2
  Heads <- N1
  Rooms <- RoomSet
  FmtSet <- Fmts8
CHECK_DEADLOCK FALSE
INVARIANTS InOrder Printed Wrote Coloured
PROPERTY Terminates
