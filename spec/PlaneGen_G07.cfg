CONSTANTS G = 4
N = 3
What = "G07"
INIT Init
NEXT Next
INVARIANTS DistLaw Emit
CHECK_DEADLOCK FALSE
