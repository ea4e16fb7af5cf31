CONSTANTS G = 3
N = 5
Ths = {0, 1, 3, 4, 9}
DEFECT = "none"
INIT Init
NEXT Next
INVARIANTS Faithful Shape
CHECK_DEADLOCK FALSE
