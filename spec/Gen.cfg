INIT Init
NEXT Next
INVARIANTS TypeOK SessionOk
CHECK_DEADLOCK FALSE
