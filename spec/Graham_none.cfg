CONSTANTS G = 3
N = 4
DEFECT = "none"
INIT Init
NEXT Next
INVARIANTS Two Hull
CHECK_DEADLOCK FALSE
