CONSTANTS
  Box <- Box6
  Min = 2
  Max = 3
  Defect = "none"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
INVARIANTS NoCrash Balanced Refines Deletable
