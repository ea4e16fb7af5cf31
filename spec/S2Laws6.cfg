CONSTANT LMAX = 6
INIT Init
NEXT Next
INVARIANTS RoundTrip Nest Continuous Count Mutual Coarser
CHECK_DEADLOCK FALSE
