CONSTANT W = 64
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
