CONSTANT EMIT = TRUE
INIT Init
NEXT Next
INVARIANTS ZoneLaw BandLaw HemiLaw NearLaw TableLaw Emit
CHECK_DEADLOCK FALSE
