INIT Init
NEXT Next
VIEW view
ACTION_CONSTRAINT Write
CHECK_DEADLOCK FALSE
