CONSTANTS L = 4
INIT Init
NEXT Next
INVARIANTS InShape Whole Emit
CHECK_DEADLOCK FALSE
