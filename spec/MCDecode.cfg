SPECIFICATION Spec
CONSTANTS Steps = 3
 Cur = 2
 Objs = 2
INVARIANT Faithful
INVARIANT SizeOK
INVARIANT NoFuture
INVARIANT RoundTrip
INVARIANT Export
CHECK_DEADLOCK TRUE
