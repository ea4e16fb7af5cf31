CONSTANT PMAX = 2
INIT Init
NEXT Next
INVARIANTS BitsAre Names Prefix Mutual Distinct
CHECK_DEADLOCK FALSE
