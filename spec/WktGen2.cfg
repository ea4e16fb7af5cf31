INIT Init
NEXT Next
CONSTANTS MaxEdits = 2 Full = FALSE Emitting = TRUE
INVARIANTS RoundTrip Layout Decided Emit
CHECK_DEADLOCK FALSE
