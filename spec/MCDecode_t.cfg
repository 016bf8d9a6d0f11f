SPECIFICATION Spec
CONSTANTS Steps = 4
 Cur = 3
 Objs = 2
INVARIANT Faithful
INVARIANT SizeOK
INVARIANT NoFuture
INVARIANT RoundTrip
INVARIANT Export
CHECK_DEADLOCK TRUE
