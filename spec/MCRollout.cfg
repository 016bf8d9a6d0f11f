CONSTANTS MaxN = 6  T = 9  W = 3
INIT Init
NEXT Next
INVARIANT Aligned
INVARIANT NeverPastEnd
CHECK_DEADLOCK FALSE
