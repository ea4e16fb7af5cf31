CONSTANTS G = 3
N = 5
What = "G10"
INIT Init
NEXT Next
INVARIANTS RectLaw Emit
CHECK_DEADLOCK FALSE
