CONSTANTS G = 3
N = 4
What = "G08"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
