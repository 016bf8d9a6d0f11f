INIT Init
NEXT Next
INVARIANT Symmetric
INVARIANT AxisAligned
INVARIANT Turned
INVARIANT Centre
INVARIANT CornersOn
CHECK_DEADLOCK FALSE
