CONSTANTS
  Sim = TRUE
  Types = {"i", "d", "f"}
  MaxDim = 4
  BigPct = 12
  Acts <- Acts_C20
INIT Init
NEXT Next
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
PROPERTY Laws_C20
