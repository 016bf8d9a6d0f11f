CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
