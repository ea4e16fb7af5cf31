CONSTANTS G = 3
N = 4
What = "G04"
INIT Init
NEXT Next
INVARIANTS SelfLaw Emit
CHECK_DEADLOCK FALSE
