INIT Init
NEXT Next
CONSTANTS MaxEdits = 2 Full = FALSE Emitting = TRUE
INVARIANTS RoundTrip Unambiguous Emit
CHECK_DEADLOCK FALSE
