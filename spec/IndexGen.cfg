CONSTANTS N = 10 
L = 60
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
