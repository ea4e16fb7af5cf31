CONSTANTS
  Readers = {1, 2, 3}
  Query <- Q3
  Defect = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoRace AsAlone Unchanged
PROPERTY Terminates
