CONSTANTS G = 3
N = 4
What = "G05"
INIT Init
NEXT Next
INVARIANTS CentroidLaw PickLaw Emit
CHECK_DEADLOCK FALSE
