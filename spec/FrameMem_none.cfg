CONSTANTS
  Callers = {"a", "b"}
  Defect = "none"
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
