CONSTANTS
  Readers = {1, 2, 3}
  Query <- Q3
  Defect = "cache"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Unchanged

