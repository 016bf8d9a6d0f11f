SPECIFICATION Spec
CONSTANTS MaxF = 2
 MaxN = 2
 MaxS = 2
 Rs = {0, 1}
 MaxB = 2
 Fill = FALSE
PROPERTY Finishes
PROPERTY Contributes
INVARIANT TotalRight
CHECK_DEADLOCK FALSE
