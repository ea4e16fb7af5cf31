INIT Init
NEXT Next
CONSTANTS MaxEdits = 1 Full = TRUE Emitting = FALSE
INVARIANTS RoundTrip Unambiguous
CHECK_DEADLOCK FALSE
