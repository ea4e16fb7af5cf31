CONSTANTS
  Box <- Box4
  Min = 1
  Max = 2
  Defect = "stalebox"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
INVARIANTS NoCrash Balanced Refines Deletable Searches Nearest Shape
