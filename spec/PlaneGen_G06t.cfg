CONSTANTS G = 3
N = 5
What = "G06"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
