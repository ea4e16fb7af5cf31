CONSTANT STEP = 1
INIT Init
NEXT Next
INVARIANTS Pythagoras Addition Anchors ArcLaw AzLaw DestLaw ArcInverse
CHECK_DEADLOCK FALSE
