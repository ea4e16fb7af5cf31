CONSTANTS
  Callers = {"a"}
  Defect = "borrow"
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
