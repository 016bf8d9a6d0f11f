INIT Init
NEXT Next
INVARIANT OncePerSlot
INVARIANT FullOnlyNow
INVARIANT BoxesAreSlots
INVARIANT ContactSymmetric
INVARIANT ContactDecided
INVARIANT Export
CHECK_DEADLOCK FALSE
