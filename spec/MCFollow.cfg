CONSTANT H = 4
INIT Init
NEXT Next
INVARIANT OnPath
INVARIANT StopsAtEnd
INVARIANT Paths
INVARIANT Export
PROPERTY Forward
PROPERTY VanishOnlyAtEnd
CHECK_DEADLOCK FALSE
