CONSTANT EMIT = TRUE
INIT Init
NEXT Next
INVARIANTS OpenLaw EdgeLaw TableLaw Emit
CHECK_DEADLOCK FALSE
