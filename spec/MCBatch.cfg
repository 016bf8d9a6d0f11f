CONSTANT T = 3
INIT Init
NEXT Next
INVARIANTS Lift NonInterference
CHECK_DEADLOCK FALSE
