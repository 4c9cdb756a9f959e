CONSTANTS
  Sim = FALSE
  Types = {"i", "d", "z", "f", "c"}
  MaxDim = 3
  BigPct = 0
  Lim = 3
INIT Init
NEXT ShapeNext
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
