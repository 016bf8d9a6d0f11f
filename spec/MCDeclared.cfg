INIT Init
NEXT Next
INVARIANT Monotone
INVARIANT Export
CHECK_DEADLOCK FALSE
