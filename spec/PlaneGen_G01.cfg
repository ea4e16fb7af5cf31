CONSTANTS G = 3
N = 4
What = "G01"
INIT Init
NEXT Next
INVARIANTS BoxLaw Emit
CHECK_DEADLOCK FALSE
