INIT Init
NEXT GenNext
CONSTANTS L = 22 K = 4 MaxF = 9 MaxC = 3 Random = TRUE Emitting = TRUE
CHECK_DEADLOCK FALSE
