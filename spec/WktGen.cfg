INIT Init
NEXT Next
CONSTANTS MaxEdits = 1 Full = TRUE Emitting = TRUE
INVARIANTS RoundTrip Layout Decided Emit
CHECK_DEADLOCK FALSE
