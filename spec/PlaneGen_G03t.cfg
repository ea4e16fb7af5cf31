CONSTANTS G = 4
N = 4
What = "G03"
INIT Init
NEXT Next
INVARIANTS SegLaw Emit
CHECK_DEADLOCK FALSE
