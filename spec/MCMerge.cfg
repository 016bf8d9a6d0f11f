CONSTANT NA = 3
CONSTANT NO = 3
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Export
CHECK_DEADLOCK FALSE
