CONSTANTS
  Callers = {"a", "b", "c"}
  Defect = "none"
  Rounds = 1
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
