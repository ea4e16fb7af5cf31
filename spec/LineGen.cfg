CONSTANTS
  L = 25
  MaxHandles = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
