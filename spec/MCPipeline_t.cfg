SPECIFICATION Spec
CONSTANTS MaxF = 3
 MaxN = 2
 MaxS = 3
 Rs = {1, 2}
 MaxB = 3
 Fill = FALSE
INVARIANT TotalRight
INVARIANT NeverTooMany
INVARIANT SameEpoch
INVARIANT LossBound
INVARIANT Export
CHECK_DEADLOCK TRUE
