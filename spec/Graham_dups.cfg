CONSTANTS G = 3
N = 5
DEFECT = "dups"
INIT Init
NEXT Next
INVARIANTS Two Hull
CHECK_DEADLOCK FALSE
