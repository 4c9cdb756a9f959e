INIT Init
NEXT Next
INVARIANT Complete
CHECK_DEADLOCK TRUE
