CONSTANTS G = 3
N = 5
What = "G02"
INIT Init
NEXT Next
INVARIANTS PipLaw PickLaw Emit
CHECK_DEADLOCK FALSE
