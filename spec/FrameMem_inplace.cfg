CONSTANTS
  Callers = {"a", "b"}
  Defect = "inplace"
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Frame SameResult
CHECK_DEADLOCK FALSE
