CONSTANTS
  Callers = {"a", "b"}
  Defect = "append"
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
