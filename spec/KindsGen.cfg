CONSTANTS L = 3
INIT Init
NEXT Next
INVARIANTS InShape Whole Emit
CHECK_DEADLOCK FALSE
