CONSTANTS
  Depth = 5
  MaxLen = 4
  MaxHandles = 4
  Defect = "none"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines Closed
