INIT Init
NEXT Next
CONSTANTS MaxEdits = 1 Full = TRUE Emitting = FALSE
INVARIANTS RoundTrip Layout Decided
CHECK_DEADLOCK FALSE
