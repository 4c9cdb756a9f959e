CONSTANTS
  Sim = FALSE
  Types = {"i", "d", "z", "f", "c"}
  MaxDim = 4
  BigPct = 0
  Lim = 4
INIT Init
NEXT ShapeNext
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
