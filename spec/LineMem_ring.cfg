CONSTANTS
  Depth = 4
  MaxLen = 4
  MaxHandles = 4
  Defect = "ringshare"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines Closed
