CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
