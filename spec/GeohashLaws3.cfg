CONSTANT PMAX = 3
INIT Init
NEXT Next
INVARIANTS BitsAre Names Prefix Mutual Distinct
CHECK_DEADLOCK FALSE
