CONSTANTS W = 2  D = 7
INIT Init
NEXT Next
INVARIANT Continues
INVARIANT FirstOnReset
INVARIANT LastAtEnd
INVARIANT InOrder
INVARIANT BeforeReset
INVARIANT AfterLast
INVARIANT Report
CHECK_DEADLOCK FALSE
