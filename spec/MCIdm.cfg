CONSTANT VMAX = 250000
CONSTANT H = 5
INIT Init
NEXT Next
INVARIANT Range
INVARIANT Monotone
INVARIANT NoCrash
INVARIANT Cells
PROPERTY FreeRises
CHECK_DEADLOCK FALSE
