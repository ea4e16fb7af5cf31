CONSTANTS G = 3
N = 4
What = "G02"
INIT Init
NEXT Next
INVARIANTS PipLaw PickLaw Emit
CHECK_DEADLOCK FALSE
