CONSTANTS G = 3
N = 4
DEFECT = "origin"
INIT Init
NEXT Next
INVARIANTS Two Hull
CHECK_DEADLOCK FALSE
