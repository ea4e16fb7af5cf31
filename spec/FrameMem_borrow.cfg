CONSTANTS
  Callers = {"a", "b"}
  Defect = "borrow"
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
