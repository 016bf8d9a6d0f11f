INIT Init
NEXT Next
INVARIANT Isometry
INVARIANT RoundTrip
INVARIANT Composes
INVARIANT Inverts
INVARIANT SelfOrigin
INVARIANT WrapOk
INVARIANT CornerOk
INVARIANT ReadOverWrite
INVARIANT MaskLaw
CHECK_DEADLOCK FALSE
