CONSTANTS G = 3
N = 4
Ths = {0, 1, 3, 4, 9}
DEFECT = "line"
INIT Init
NEXT Next
INVARIANTS Faithful Shape
CHECK_DEADLOCK FALSE
