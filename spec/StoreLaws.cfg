INIT Init
NEXT Next
VIEW View
CONSTANTS L = 6 K = 2 MaxF = 3 MaxC = 2 Random = FALSE Emitting = FALSE
INVARIANTS Stable Kept Refs
PROPERTY Frame
CHECK_DEADLOCK FALSE
