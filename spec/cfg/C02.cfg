CONSTANTS
  Sim = TRUE
  Types = {"i", "d", "z", "f", "c"}
  MaxDim = 4
  BigPct = 12
  Acts <- Acts_C02
INIT Init
NEXT Next
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
