CONSTANTS G = 3
N = 4
What = "G11"
INIT Init
NEXT Next
INVARIANTS RelLaw Emit
CHECK_DEADLOCK FALSE
