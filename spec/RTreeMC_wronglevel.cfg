CONSTANTS
  Box <- Box5
  Min = 2
  Max = 4
  Defect = "wronglevel"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
INVARIANTS NoCrash Balanced Refines Deletable
