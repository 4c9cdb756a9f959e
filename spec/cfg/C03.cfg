CONSTANTS
  Sim = TRUE
  Types = {"i", "d", "z", "f", "c"}
  MaxDim = 4
  BigPct = 15
  Acts <- Acts_C03
INIT Init
NEXT Next
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
