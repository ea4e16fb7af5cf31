INIT Init
NEXT Next
CONSTANTS MaxEdits = 1 Full = TRUE Emitting = TRUE
INVARIANTS RoundTrip Unambiguous Emit
CHECK_DEADLOCK FALSE
