CONSTANTS G = 3
N = 4
Ths = {1, 4}
DEFECT = "none"
INIT Init
NEXT Next
INVARIANTS Faithful Shape
CHECK_DEADLOCK FALSE
