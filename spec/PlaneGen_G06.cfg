CONSTANTS G = 3
N = 4
What = "G06"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
